From ec485713716e651a5af8d7f2760aea0192c8e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 01/33] fix: use each day's own month when expanding monthly
 storm parameters

The months of the forcing run 1..12 but were compared with 0..11, so January
got February's value and December was never set at all.
---
 metsim/metsim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3c70448..cc4237b 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -279,8 +279,9 @@ class MetSim(object):
         self.met_data[name] = self.met_data['prec'].copy()
         months = self.met_data['time'].dt.month
         for m in range(12):
-            param = self.domain[name].sel(month=m)
-            locations = {'time': self.met_data['time'].isel(time=months == m)}
+            param = self.domain[name].isel(month=m)
+            locations = {'time':
+                         self.met_data['time'].isel(time=months == m + 1)}
             self.met_data[name].loc[locations] = param
 
     @property
-- 
2.43.0


From 64de1ceb80432bd700e2cdc663c1ba1959d214d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 02/33] fix: read as many binary records as there are variables

The number of values to read was fixed at four per day, so a file with any
other number of variables was cut short or read past the last day.
---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 164335d..cce2d20 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -338,7 +338,7 @@ def read_binary(data_handle, domain=None,
     with open(data_handle, 'rb') as f:
         i = 0
         points_read = 0
-        points_needed = 4 * n_days
+        points_needed = n_vars * n_days
         while points_read != points_needed:
             bytes = f.read(2)
             if bytes:
-- 
2.43.0


From 2c20ba9a605ee31d176016ee4d3aa21eea563ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 03/33] fix: one kPa of air pressure is ten hPa

---
 metsim/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/units.py b/metsim/units.py
index c784f5d..3a0fbda 100644
--- a/metsim/units.py
+++ b/metsim/units.py
@@ -36,7 +36,7 @@ converters = {
             },
         'air_pressure': {
             'kPa': lambda x, ts: x,
-            'hPa': lambda x, ts: x * 100.,
+            'hPa': lambda x, ts: x * 10.,
             'Pa': lambda x, ts: x * 1000.,
             },
         'tskc': {
-- 
2.43.0


From f92de08b11e41821f3251cff4c0fc0f925f869b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 04/33] fix: keep the scale entries of binary forcings in YAML
 configurations

Binary forcing variables map a name to its scale and type; the INI reader
leaves them alone but the YAML reader inverted them.
---
 metsim/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index cce2d20..b166c58 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -74,7 +74,9 @@ def read_yaml_config(config_file, opts):
     with open(config_file, 'r') as f:
         config = yaml.load(f, Loader=yaml.SafeLoader)
     conf = OrderedDict(config['MetSim'])
-    conf['forcing_vars'] = _invert_dict(OrderedDict(config['forcing_vars']))
+    conf['forcing_vars'] = OrderedDict(config['forcing_vars'])
+    if conf.get('forcing_fmt', 'netcdf') != 'binary':
+        conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
     conf['out_vars'] = OrderedDict(config['out_vars'])
-- 
2.43.0


From dd57c8ca8af6a776fc02417043319d793fbc7b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 05/33] fix: write whole dimensions that the chunks section
 does not name

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index cc4237b..3d34ae8 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -450,7 +450,8 @@ class MetSim(object):
                         outname = varconf['out_name']
                         dims = ncout.variables[outname].dimensions[1:]
                         write_slice = ((slice(None), ) + tuple(
-                            self._domain_slice[d] for d in dims))
+                            self._domain_slice.get(d, slice(None))
+                            for d in dims))
                         ncout.variables[outname][write_slice] = (
                             self.output[varname].sel(time=time_slice).values)
 
-- 
2.43.0


From 27e5972706a66c5c4286236e3cb0404f25d86219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 06/33] fix: accept longwave options in any capitalization, as
 documented

---
 metsim/metsim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3d34ae8..43e924c 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -678,7 +678,11 @@ class MetSim(object):
                             'brutsaert', 'satterlund',
                             'idso', 'prata']}
         for k, v in opts.items():
-            if not self.params.get(k, None) in v:
+            given = self.params.get(k, None)
+            if k.startswith('lw_'):
+                # capitalization does not matter
+                given = str(given).lower()
+            if given not in v:
                 errs.append("Invalid option given for {}".format(k))
 
         # If any errors, raise and give a summary
-- 
2.43.0


From a32816d3ad6cbaf2be56d3b036e00a7f83e95eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 07/33] fix: select the cells of the domain when forcings are
 given as data

Forcings handed over as an xarray dataset were never cut to the domain (or
to the chunk of it being run), unlike forcings read from a file.
---
 metsim/io.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index b166c58..4fcef2d 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -315,6 +315,12 @@ def read_data(data_handle, domain=None, is_worker=False,
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
 
+    if domain is not None:
+        data_handle = data_handle.sel({k: domain[k]
+                                       for k in list(domain.dims.keys())
+                                       if k in list(data_handle.dims.keys())
+                                       and k in data_handle.coords})
+
     if start is not None and stop is not None:
         data_handle = data_handle.sel(time=slice(start, stop))
         dates = data_handle.indexes['time']
-- 
2.43.0


From cc746ef1bf513f909f69e950c7e281d541127bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 08/33] fix: do not rescale daily shortwave that is passed
 through

The passthrough method takes shortwave as the average over the whole day,
unless sw_averaging says daylight, but daily output scaled it by the length
of the day all the same.
---
 metsim/metsim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 43e924c..36eae43 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -783,8 +783,11 @@ def wrap_run_cell(func: callable, params: dict,
             start, stop, freq='{}T'.format(params['time_step']),
             calendar=params['calendar'])
     else:
-        # convert srad to daily average flux from daytime flux
-        df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
+        # convert srad to daily average flux from daytime flux; shortwave
+        # that was passed through is a daily average already (see disaggregate)
+        if (params['method'] != 'passthrough' or
+                params.get('sw_averaging', '') == 'daylight'):
+            df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
         # If we're outputting daily values, we dont' need to
         # change the output dates - see inside of `if` condition
         # above for more explanation
-- 
2.43.0


From 3c43511a930d31827bf84693b31fb7287c0f7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 09/33] fix: skip output periods that hold no time step

With a noleap calendar and daily output files the group of February 29 is
empty, and naming its file failed.
---
 metsim/metsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 36eae43..e80dd1f 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -555,7 +555,7 @@ class MetSim(object):
         else:
             dummy = pd.Series(np.arange(len(times)), index=times)
             grouper = pd.Grouper(freq=freq)
-            times = [t.index for k, t in dummy.groupby(grouper)]
+            times = [t.index for k, t in dummy.groupby(grouper) if len(t)]
         return times
 
     def _get_output_filename(self, times):
-- 
2.43.0


From 707ee1dac1534b5ff9ea12174d9dec0641688fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 10/33] fix: give the daily output t_day units and attributes

t_day is accepted as a daily output variable but writing it failed for want
of a unit.
---
 metsim/metsim.py | 4 ++++
 metsim/units.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index e80dd1f..66bde46 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -91,6 +91,10 @@ attrs = {'pet': {'units': 'mm timestep-1',
          't_min': {'units': 'C', 'long_name': 'minimum daily air temperature',
                    'standard_name': 'daily_minimum_air_temperature',
                    'missing_value': np.nan, 'fill_value': np.nan},
+         't_day': {'units': 'C',
+                   'long_name': 'daylight average air temperature',
+                   'standard_name': 'daylight_average_air_temperature',
+                   'missing_value': np.nan, 'fill_value': np.nan},
          'temp': {'units': 'C', 'long_name': 'air temperature',
                   'standard_name': 'air_temperature',
                   'missing_value': np.nan, 'fill_value': np.nan},
diff --git a/metsim/units.py b/metsim/units.py
index 3a0fbda..65cb285 100644
--- a/metsim/units.py
+++ b/metsim/units.py
@@ -25,6 +25,10 @@ converters = {
             'C': lambda x, ts: x,
             'K': lambda x, ts: x + 273.15,
             },
+        't_day': {
+            'C': lambda x, ts: x,
+            'K': lambda x, ts: x + 273.15,
+            },
         'temp': {
             'C': lambda x, ts: x,
             'K': lambda x, ts: x + 273.15,
-- 
2.43.0


From ea8bff34a4d01a7875eefad02e2b2a8595f0fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 11/33] fix: accept start and stop given as plain dates

An unquoted YYYY-MM-DD in a YAML file is parsed to a date, which does not
compare with the times of the forcings.
---
 metsim/metsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 66bde46..c3dbb1c 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -256,6 +256,9 @@ class MetSim(object):
                     self.params[p] = datetime(year, month, day)
                 else:
                     self.params[p] = pd.to_datetime(self.params[p])
+            else:
+                # e.g. a date from a YAML file
+                self.params[p] = pd.Timestamp(self.params[p]).to_pydatetime()
 
         # update calendar from input data (fall back to params version)
         self.params['calendar'] = self.met_data['time'].encoding.get(
-- 
2.43.0


From 6fb050f37528449b318fc0c061609ca768ffc06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 12/33] fix: let start and stop default to the extent of the
 forcings

---
 metsim/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 4fcef2d..442c6fa 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -206,9 +206,11 @@ def process_nc(params: dict, domain: xr.Dataset) -> xr.Dataset:
         "netcdf": read_netcdf,
         "data": read_data
     }
+    # 'forcing' means the first or last day of the forcings
+    start, stop = [None if params[p] == 'forcing' else params[p]
+                   for p in ('start', 'stop')]
     return read_funcs[params['forcing_fmt']](
-        params['forcing'], domain=domain,
-        start=params['start'], stop=params['stop'],
+        params['forcing'], domain=domain, start=start, stop=stop,
         calendar=params['calendar'], var_dict=params.get('forcing_vars', None))
 
 
-- 
2.43.0


From 45094ccf4c83904227af9bd0e24da39e9182531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 13/33] fix: keep one run's parameters and attributes out of
 the next

Parameters were merged into a dictionary of the class and units and global
attributes into a dictionary of the module, so a run inherited what an earlier
one in the same process had set: output in C could be labelled K.
---
 metsim/metsim.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index c3dbb1c..dc3d789 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -184,7 +184,9 @@ class MetSim(object):
         self._client = None
         self._domain_slice = domain_slice
         self.progress_bar = ProgressBar()
-        self.params.update(params)
+        # every run has its own parameters and attributes
+        self.params = {**self.params, **params}
+        self.attrs = {k: OrderedDict(v) for k, v in attrs.items()}
         logging.captureWarnings(True)
         self.logger = logging.getLogger(__name__)
         self.logger.setLevel(self.params['verbose'])
@@ -234,7 +236,7 @@ class MetSim(object):
         for k, v in out_vars.items():
             if 'units' in v.keys():
                 if v['units'] in converters[k].keys():
-                    attrs[k]['units'] = v['units']
+                    self.attrs[k]['units'] = v['units']
                 else:
                     self.logger.warn(
                         f'Could not find unit conversion for {k} to {v["units"]}!'
@@ -274,13 +276,13 @@ class MetSim(object):
         self.params['state_stop'] = (self.params['start'] -
                                      pd.Timedelta("1 days"))
         if self.params['utc_offset']:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
-                             'long_name': 'UTC time',
-                             'standard_name': 'utc_time'}
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+                                  'long_name': 'UTC time',
+                                  'standard_name': 'utc_time'}
         else:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
-                             'long_name': 'local time at grid location',
-                             'standard_name': 'local_time'}
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+                                  'long_name': 'local time at grid location',
+                                  'standard_name': 'local_time'}
 
     def convert_monthly_param(self, name):
         self.met_data[name] = self.met_data['prec'].copy()
@@ -395,7 +397,7 @@ class MetSim(object):
             time_var.calendar = self.params['calendar']
             time_var[:] = date2num(
                 times.to_pydatetime(),
-                units=attrs['time'].get('units', DEFAULT_TIME_UNITS),
+                units=self.attrs['time'].get('units', DEFAULT_TIME_UNITS),
                 calendar=time_var.calendar)
 
             dtype_map = {'float64': 'f8', 'float32': 'f4',
@@ -429,18 +431,18 @@ class MetSim(object):
 
                 if isinstance(v, str):
                     v = v.replace("'", "").replace('"', "")
-                attrs['_global'][k] = v
+                self.attrs['_global'][k] = v
 
             # set global attrs
-            for key, val in attrs['_global'].items():
+            for key, val in self.attrs['_global'].items():
                 setattr(ncout, key, val)
 
             # set variable attrs
-            for key, value in attrs.get('time', {}).items():
+            for key, value in self.attrs.get('time', {}).items():
                 setattr(ncout.variables['time'], key, value)
             for varname, varconf  in self.params['out_vars'].items():
                 outname = varconf['out_name']
-                for key, val in attrs.get(varname, {}).items():
+                for key, val in self.attrs.get(varname, {}).items():
                     setattr(ncout.variables[outname], key, val)
 
     def write_chunk(self, locks=None):
@@ -592,8 +594,8 @@ class MetSim(object):
             self.output[varname] = xr.DataArray(
                 data=np.full(shape, np.nan, dtype=dtype),
                 coords=coords, dims=dims,
-                name=varname, attrs=attrs.get(varname, {}))
-        self.output['time'].attrs.update(attrs['time'])
+                name=varname, attrs=self.attrs.get(varname, {}))
+        self.output['time'].attrs.update(self.attrs['time'])
 
     def _aggregate_state(self):
         """Aggregate data out of the state file and load it into `met_data`"""
-- 
2.43.0


From 8abcd2a57487155c23a6ea774ab348f1d6dc8b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:34 +0000
Subject: [PATCH 14/33] fix: do not rename the default outputs when reading a
 configuration

An out_vars section of an INI file changed the table of available outputs, so
the next configuration without such a section wrote under the same names.
---
 metsim/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 442c6fa..7af5783 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -149,7 +149,7 @@ def read_ini_config(config_file, opts):
         conf['out_vars'] = _to_list(conf['out_vars'])
         temp = {}
         for ov in conf['out_vars']:
-            temp[ov] = metsim.available_outputs[ov]
+            temp[ov] = dict(metsim.available_outputs[ov])
         conf['out_vars'] = temp
     else:
         conf['out_vars'] = {}
@@ -157,7 +157,7 @@ def read_ini_config(config_file, opts):
     if 'out_vars' in config:
         temp = {}
         for varname, outname in config['out_vars'].items():
-            temp[varname] = metsim.available_outputs[varname]
+            temp[varname] = dict(metsim.available_outputs[varname])
             temp[varname]['out_name'] = outname
         conf['out_vars'].update(temp)
 
-- 
2.43.0


From 385acf5e4f1a4c6501e888c796f1be2da749ecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 15/33] fix: count the 90 days of the state in the calendar of
 the run

With a noleap calendar a window that spans February 29 came out one day short,
and the run ended with an error.
---
 metsim/datetime.py | 10 ++++++++++
 metsim/metsim.py   | 10 +++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/metsim/datetime.py b/metsim/datetime.py
index dcd60aa..4cfa50b 100644
--- a/metsim/datetime.py
+++ b/metsim/datetime.py
@@ -72,6 +72,16 @@ def date_range(start=None, end=None, periods=None, freq='D', tz=None,
                 'Specified arguments are not valid for this calendar')
 
 
+def add_days(date, days, calendar='standard'):
+    """The date a number of days after (or before) another one"""
+    if calendar in ['standard', 'gregorian', 'propoleptic_gregorian']:
+        return date + pd.Timedelta(days=days)
+    units = units_from_freq('D')
+    new = num2date(date2num(date, units, calendar=calendar) + days,
+                   units, calendar=calendar)
+    return pd.Timestamp(new.isoformat()).to_pydatetime()
+
+
 def decode_freq(freq):
     if len(freq) > 1:
         r = re.compile('([0-9]+)([a-zA-Z]+)')
diff --git a/metsim/metsim.py b/metsim/metsim.py
index dc3d789..8c1cc26 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -53,7 +53,7 @@ from xarray.backends.locks import get_write_lock, combine_locks, NETCDFC_LOCK
 
 import metsim.constants as cnst
 from metsim import io
-from metsim.datetime import date_range
+from metsim.datetime import add_days, date_range
 from metsim.disaggregate import disaggregate
 from metsim.methods import mtclim, passthrough
 from metsim.physics import solar_geom
@@ -271,10 +271,10 @@ class MetSim(object):
         assert self.params['stop'] <= pd.Timestamp(
             force_times.values[-1]).to_pydatetime()
 
-        self.params['state_start'] = (self.params['start'] -
-                                      pd.Timedelta("90 days"))
-        self.params['state_stop'] = (self.params['start'] -
-                                     pd.Timedelta("1 days"))
+        self.params['state_start'] = add_days(
+            self.params['start'], -90, self.params['calendar'])
+        self.params['state_stop'] = add_days(
+            self.params['start'], -1, self.params['calendar'])
         if self.params['utc_offset']:
             self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
                                   'long_name': 'UTC time',
-- 
2.43.0


From 9023967242c9230deac505dda0de323eaaa506fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 16/33] fix: name output files apart when there are several per
 day

File names hold dates only, so with an output frequency below a day the files
of one day overwrote each other.
---
 metsim/metsim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 8c1cc26..47ab789 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -701,6 +701,10 @@ class MetSim(object):
     def get_nc_output_suffix(self, times):
         s, e = times[[0, -1]]
         template = '{:04d}{:02d}{:02d}-{:04d}{:02d}{:02d}'
+        first = [t[0].date() for t in self._times]
+        if len(first) != len(set(first)):
+            # more than one file per day
+            return '{:%Y%m%d%H%M}-{:%Y%m%d%H%M}'.format(s, e)
         return template.format(s.year, s.month, s.day,
                                e.year, e.month, e.day,)
 
-- 
2.43.0


From a83c2aa170afa6f057070f982c9584efb4cde575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:54 +0000
Subject: [PATCH 17/33] fix: do not lose a minute of the UTC shift to rounding

---
 metsim/disaggregate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 9e71d51..9d5bed7 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -183,8 +183,8 @@ def set_min_max_hour(tiny_rad_fract: np.ndarray, yday: np.ndarray, daylength: np
 
     if params['utc_offset']:
         # rad_fract_per_day = int(cnst.SEC_PER_DAY/cnst.SW_RAD_DT)
-        utc_offset = int(((params.get("lon", 0) - params.get("theta_s", 0)) /
-                          cnst.DEG_PER_REV) * cnst.MIN_PER_DAY)
+        utc_offset = int((params.get("lon", 0) - params.get("theta_s", 0)) *
+                         cnst.MIN_PER_DAY / cnst.DEG_PER_REV)
         rise_times -= utc_offset
         set_times -= utc_offset
 
@@ -346,7 +346,7 @@ def prec(prec: pd.Series, t_min: pd.Series, ts: float, params: dict,
         P_return = prec_UNIFORM(prec)
 
     if params['utc_offset']:
-        offset = int(((params["lon"] / cnst.DEG_PER_REV) * cnst.MIN_PER_DAY))
+        offset = int((params["lon"] * cnst.MIN_PER_DAY / cnst.DEG_PER_REV))
         P_return = np.roll(P_return, -offset)
     P_return = np.sum(P_return.reshape(-1, int(ts)), axis=1).flatten()
     return P_return
@@ -373,7 +373,7 @@ def wind(wind: np.array, ts: int, params: dict) -> np.array:
     """
     sd_wind = np.repeat(wind, cnst.MIN_PER_DAY)
     if params['utc_offset']:
-        offset = int((params["lon"] / cnst.DEG_PER_REV) * cnst.MIN_PER_DAY)
+        offset = int(params["lon"] * cnst.MIN_PER_DAY / cnst.DEG_PER_REV)
         sd_wind = np.roll(sd_wind, -offset)
 
     sd_wind = np.mean(sd_wind.reshape(-1, int(ts)), axis=1).flatten()
@@ -608,7 +608,7 @@ def tskc(tskc: np.array, ts: int, params: dict) -> np.array:
     """
     sd_tskc = np.repeat(tskc, cnst.MIN_PER_DAY)
     if params['utc_offset']:
-        offset = int((params["lon"] / cnst.DEG_PER_REV) * cnst.MIN_PER_DAY)
+        offset = int(params["lon"] * cnst.MIN_PER_DAY / cnst.DEG_PER_REV)
         sd_tskc = np.roll(sd_tskc, -offset)
 
     sd_tskc = np.mean(sd_tskc.reshape(-1, int(ts)), axis=-1).flatten()
@@ -652,7 +652,7 @@ def shortwave(sw_rad: np.array, daylength: np.array, day_of_year: np.array,
     rad_fract_per_day = int(cnst.SEC_PER_DAY / cnst.SW_RAD_DT)
     tmp_rad = np.repeat(tmp_rad, rad_fract_per_day)
     if params['utc_offset']:
-        utc_offset = int((params['lon'] / cnst.DEG_PER_REV) * rad_fract_per_day)
+        utc_offset = int(params["lon"] * rad_fract_per_day / cnst.DEG_PER_REV)
         tiny_rad_fract = np.roll(tiny_rad_fract.flatten(), -utc_offset)
         tmp_rad = np.roll(tmp_rad.flatten(), -utc_offset)
         tiny_rad_fract = tiny_rad_fract.flatten()
-- 
2.43.0


From e24f12df578a57384984706199f9f4abfb4a8a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:39 +0000
Subject: [PATCH 18/33] fix: keep vapor pressure below saturation at the ends
 of the record

---
 metsim/disaggregate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 9d5bed7..1f7346f 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -477,8 +477,10 @@ def vapor_pressure(vp_daily: np.array, temp: np.array, t_t_min: np.array,
         A sub-daily timeseries of the vapor pressure
     """
     # Linearly interpolate the values
-    interp = scipy.interpolate.interp1d(t_t_min, vp_daily / cnst.MBAR_PER_BAR,
-                                        bounds_error=False)
+    # (and hold the first and last one at the ends of the record)
+    vp_daily = vp_daily / cnst.MBAR_PER_BAR
+    interp = scipy.interpolate.interp1d(t_t_min, vp_daily, bounds_error=False,
+                                        fill_value=(vp_daily[0], vp_daily[-1]))
     vp_disagg = interp(ts * np.arange(0, n_out))
 
     # Account for situations where vapor pressure is higher than
-- 
2.43.0


From 93bcf336ab216d4a24d92a1270bfcbbd837236dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:27 +0000
Subject: [PATCH 19/33] fix: keep the estimated cloud fraction within one

---
 metsim/methods/mtclim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/methods/mtclim.py b/metsim/methods/mtclim.py
index 612c6b2..7d39386 100644
--- a/metsim/methods/mtclim.py
+++ b/metsim/methods/mtclim.py
@@ -253,4 +253,4 @@ def tskc(tfmax, params):
     """
     if (params['lw_cloud'].upper() == 'CLOUD_DEARDORFF'):
         return 1. - tfmax
-    return np.sqrt((1. - tfmax) / 0.65)
+    return np.minimum(np.sqrt((1. - tfmax) / 0.65), 1.)
-- 
2.43.0


From 7a18ecf2e6fbd07313d8953031b5caa894c7c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 20/33] fix: keep the shares of potential radiation summing to
 one on polar days

---
 metsim/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/physics.py b/metsim/physics.py
index 815654a..a9ea8bc 100644
--- a/metsim/physics.py
+++ b/metsim/physics.py
@@ -264,7 +264,7 @@ def solar_geom(elev: float, lat: float, lr: float) -> tuple:
             tinystep = int(min(max(
                 (12 * cnst.SEC_PER_HOUR + h * cnst.SEC_PER_RAD) / dt, 0),
                 tiny_step_per_day - 1))
-            tiny_rad_fract[i][tinystep] = dir_flat_topa
+            tiny_rad_fract[i][tinystep] += dir_flat_topa
 
         if daylength[i] and sum_flat_potrad > 0:
             tiny_rad_fract[i] /= sum_flat_potrad
-- 
2.43.0


From e682f50af719a193178306a04a4b434a963591b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:32 +0000
Subject: [PATCH 21/33] fix: do not fail on days shorter than one step of the
 radiation routine

---
 metsim/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/physics.py b/metsim/physics.py
index a9ea8bc..7ffc208 100644
--- a/metsim/physics.py
+++ b/metsim/physics.py
@@ -269,7 +269,7 @@ def solar_geom(elev: float, lat: float, lr: float) -> tuple:
         if daylength[i] and sum_flat_potrad > 0:
             tiny_rad_fract[i] /= sum_flat_potrad
 
-        if daylength[i]:
+        if daylength[i] and sum_flat_potrad > 0:
             # Transmittance and potential radiation
             # averaged over daylength
             tt_max0[i] = sum_trans / sum_flat_potrad
-- 
2.43.0


From c2c400a55f0c8fe5000ff9035e549b80e31b85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 22/33] fix: keep the fractions of storm parameters when
 precipitation is stored as integers

---
 metsim/metsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 47ab789..0c93037 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -285,7 +285,7 @@ class MetSim(object):
                                   'standard_name': 'local_time'}
 
     def convert_monthly_param(self, name):
-        self.met_data[name] = self.met_data['prec'].copy()
+        self.met_data[name] = self.met_data['prec'].astype(float)
         months = self.met_data['time'].dt.month
         for m in range(12):
             param = self.domain[name].isel(month=m)
-- 
2.43.0


From 8f91eb4de53ecf1912dcd1355fd8f7d470302fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 23/33] fix: constants next to variables stored as integers
 keep their fractions

---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 0c93037..0cf9ff8 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -314,7 +314,8 @@ class MetSim(object):
                 da_template = self._met_data[list(self._met_data)[0]]
                 for var in constant_vars.keys():
                     self._met_data[var] = xr.full_like(da_template,
-                                                       float(constant_vars[var]))
+                                                       float(constant_vars[var]),
+                                                       dtype=float)
 
             self._validate_force_times(force_times=self._met_data['time'])
         return self._met_data
-- 
2.43.0


From 24f035d917fa65b3bb20187a89fe345df82e031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 24/33] fix: days stamped at their last second do not move to
 the next day

---
 metsim/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 7af5783..40210f1 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -297,7 +297,8 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
         if isinstance(ds.indexes['time'], xr.CFTimeIndex):
             ds['time'] = ds.indexes['time'].to_datetimeindex()
         ds['time'] = (ds.indexes['time'] -
-                      pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
+                      pd.Timedelta(hours=11, minutes=59, seconds=59,
+                                   milliseconds=500)).round('D')
 
     if start is not None or stop is not None:
         ds = ds.sel(time=slice(start, stop))
-- 
2.43.0


From 8513a43605ab728dd3606017ec80ba3b86fcdf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 25/33] fix: forcings given as data may be stamped at any time
 of day

---
 metsim/io.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 40210f1..d8dec86 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -265,6 +265,14 @@ def read_ascii(data_handle, domain=None, is_worker=False,
     return ds
 
 
+def _stamp_days(times):
+    """The days of a series of daily values stamped at any time of day"""
+    if isinstance(times, xr.CFTimeIndex):
+        times = times.to_datetimeindex()
+    return (times - pd.Timedelta(hours=11, minutes=59, seconds=59,
+                                 milliseconds=500)).round('D')
+
+
 def read_netcdf(data_handle, domain=None, is_worker=False,
                 start=None, stop=None, calendar='standard',
                 var_dict=None) -> xr.Dataset:
@@ -294,11 +302,7 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
             ds[d] = np.arange(0, len(ds[d]))
 
     if 'time' in ds.coords:
-        if isinstance(ds.indexes['time'], xr.CFTimeIndex):
-            ds['time'] = ds.indexes['time'].to_datetimeindex()
-        ds['time'] = (ds.indexes['time'] -
-                      pd.Timedelta(hours=11, minutes=59, seconds=59,
-                                   milliseconds=500)).round('D')
+        ds['time'] = _stamp_days(ds.indexes['time'])
 
     if start is not None or stop is not None:
         ds = ds.sel(time=slice(start, stop))
@@ -317,6 +321,8 @@ def read_data(data_handle, domain=None, is_worker=False,
         data_handle = data_handle.rename(var_dict)
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
+    if 'time' in data_handle.coords:
+        data_handle['time'] = _stamp_days(data_handle.indexes['time'])
 
     if domain is not None:
         data_handle = data_handle.sel({k: domain[k]
-- 
2.43.0


From e030a8064c0af3c55c588a550ce777acbd81b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 26/33] fix: keep the calendar of the forcings

---
 metsim/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index d8dec86..1dfb068 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -267,10 +267,14 @@ def read_ascii(data_handle, domain=None, is_worker=False,
 
 def _stamp_days(times):
     """The days of a series of daily values stamped at any time of day"""
+    encoding = {}
     if isinstance(times, xr.CFTimeIndex):
+        # not to be lost with the conversion
+        encoding['calendar'] = times.calendar
         times = times.to_datetimeindex()
-    return (times - pd.Timedelta(hours=11, minutes=59, seconds=59,
+    days = (times - pd.Timedelta(hours=11, minutes=59, seconds=59,
                                  milliseconds=500)).round('D')
+    return xr.IndexVariable('time', days, encoding=encoding)
 
 
 def read_netcdf(data_handle, domain=None, is_worker=False,
-- 
2.43.0


From 85b4f40f7b1e0c01af565f171e07902d1419f27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 27/33] fix: read flags written as text in YAML configurations

---
 metsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index 1dfb068..697ac2a 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -94,6 +94,11 @@ def read_yaml_config(config_file, opts):
     else:
         forcing_files = conf['forcing']
 
+    # Flags may have been written as text
+    for bool_param in ['utc_offset', 'period_ending']:
+        conf[bool_param] = (
+            str(conf.get(bool_param, False)).strip().lower() == 'true')
+
     # Update the full configuration
     conf.update({"calendar": conf.get('calendar', 'standard'),
                  "scheduler": opts.scheduler,
-- 
2.43.0


From 8dd95c535c3772ab1d4a3f8ce3c84263afe5ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 28/33] fix: the list and the default of the output variables
 in configuration files

---
 metsim/io.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 697ac2a..2c2ab2a 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -79,10 +79,16 @@ def read_yaml_config(config_file, opts):
         conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
-    conf['out_vars'] = OrderedDict(config['out_vars'])
-    for k, v in conf['out_vars'].items():
-        if 'units' not in v:
-            v['units'] = metsim.available_outputs[k]['units']
+    # The list variant keeps the names, the section may change them; leave it
+    # to the defaults if neither is given
+    if 'out_vars' in conf or 'out_vars' in config:
+        out_vars = OrderedDict((v, {'out_name': v})
+                               for v in conf.get('out_vars', []))
+        out_vars.update(config.get('out_vars', {}))
+        for k, v in out_vars.items():
+            if 'units' not in v:
+                v['units'] = metsim.available_outputs[k]['units']
+        conf['out_vars'] = out_vars
     conf['chunks'] = OrderedDict(config['chunks'])
     if 'constant_vars' in config:
         conf['constant_vars'] = OrderedDict(config['constant_vars'])
@@ -165,6 +171,9 @@ def read_ini_config(config_file, opts):
             temp[varname] = dict(metsim.available_outputs[varname])
             temp[varname]['out_name'] = outname
         conf['out_vars'].update(temp)
+    # Leave it to the defaults if neither is given
+    if 'out_vars' not in config and 'out_vars' not in config['MetSim']:
+        del conf['out_vars']
 
     conf = {k: v for k, v in conf.items() if v != []}
     return conf
-- 
2.43.0


From 1d090be21fe4d2768eeae94ad853cc9e1d19bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:50 +0000
Subject: [PATCH 29/33] fix: an empty chunks section in a YAML configuration

---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 2c2ab2a..bde8a25 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -89,7 +89,7 @@ def read_yaml_config(config_file, opts):
             if 'units' not in v:
                 v['units'] = metsim.available_outputs[k]['units']
         conf['out_vars'] = out_vars
-    conf['chunks'] = OrderedDict(config['chunks'])
+    conf['chunks'] = OrderedDict(config['chunks'] or {})
     if 'constant_vars' in config:
         conf['constant_vars'] = OrderedDict(config['constant_vars'])
 
-- 
2.43.0


From 07682a1bc60835578ba9fee3314cb7c91ea9ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 30/33] fix: create the output directory, as documented

---
 metsim/metsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 0cf9ff8..9744590 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -340,6 +340,7 @@ class MetSim(object):
 
     def run(self):
         self._validate_setup()
+        os.makedirs(self.params['out_dir'], exist_ok=True)
         write_locks = {}
         for times in self._times:
             filename = self._get_output_filename(times)
-- 
2.43.0


From 9942185bd851eb58a5a1d6cfdca4ffd680dce365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 31/33] fix: refuse forcings of a cell that end before the run
 does

---
 metsim/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index bde8a25..0aa3a63 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -257,13 +257,14 @@ def process_vic(params: dict, domain: xr.Dataset) -> xr.Dataset:
             lat, lon = float(lat), float(lon)
             if not domain['mask'].sel(lat=lat, lon=lon).values > 0:
                 continue
-            ds = read_funcs[params['forcing_fmt']](
-                job, start=params['start'], stop=params['stop'],
-                calendar=params['calendar'], var_dict=params['forcing_vars'])
-            for var in params['forcing_vars'].keys():
-                met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
         except (ValueError, KeyError):
+            # not the file of a cell of the domain
             continue
+        ds = read_funcs[params['forcing_fmt']](
+            job, start=params['start'], stop=params['stop'],
+            calendar=params['calendar'], var_dict=params['forcing_vars'])
+        for var in params['forcing_vars'].keys():
+            met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
     return met_data
 
 
-- 
2.43.0


From a3308bbea0e019a7b1fb5c06c5605d7be27a2f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:38 +0000
Subject: [PATCH 32/33] fix: refuse runs whose inputs or method do not exist
 before writing

---
 metsim/metsim.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 9744590..c95c4b8 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -682,6 +682,22 @@ class MetSim(object):
                 errs.append('Cannot output variable {} at timestep {}'.format(
                     var, self.params['time_step']))
 
+        # Check that the inputs the options rely on are there
+        required_in = []
+        if 'wind' in self.params.get('out_vars', []):
+            required_in.append('wind')
+        if self.params['method'] == 'passthrough':
+            required_in.append('shortwave')
+        for each in required_in:
+            if each not in self.met_data.variables:
+                errs.append("Input requires {}".format(each))
+        if self.params['prec_type'].upper() in ['TRIANGLE', 'MIX']:
+            for each in ['dur', 't_pk']:
+                if each not in self.domain.variables:
+                    errs.append("Domain requires {}".format(each))
+        if self.params['method'] not in self.methods:
+            errs.append("Invalid option given for method")
+
         # Check that the parameters specified are available
         opts = {'out_precision': ['f4', 'f8'],
                 'lw_cloud': ['default', 'cloud_deardorff'],
-- 
2.43.0


From cbfd7a664442e08cc2c9595479b6223a9e230d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 33/33] fix: refuse domains and states that lack what a run
 needs before writing

---
 metsim/metsim.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index c95c4b8..4924437 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -691,10 +691,21 @@ class MetSim(object):
         for each in required_in:
             if each not in self.met_data.variables:
                 errs.append("Input requires {}".format(each))
+        required_in = ['mask', 'elev', 'lat', 'lon']
         if self.params['prec_type'].upper() in ['TRIANGLE', 'MIX']:
-            for each in ['dur', 't_pk']:
-                if each not in self.domain.variables:
-                    errs.append("Domain requires {}".format(each))
+            required_in += ['dur', 't_pk']
+        for each in required_in:
+            if each not in self.domain.variables:
+                errs.append("Domain requires {}".format(each))
+        if self._state is None:
+            # it is read in full only to run the chunks
+            state = io.read_state(self.params, self.domain)
+            for each in ['t_min', 't_max', 'prec']:
+                if each not in state.variables:
+                    errs.append("State requires {}".format(each))
+            if state.dims['time'] != 90:
+                errs.append("Requires a state of the 90 days before the start")
+            state.close()
         if self.params['method'] not in self.methods:
             errs.append("Invalid option given for method")
 
-- 
2.43.0

