"""Writes properties.jsonl (kept as a script because the lines are long)."""
import json
import os

D = 'metsim/disaggregate.py'
M = 'metsim/metsim.py'
IO = 'metsim/io.py'
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=None,
         observe=None):
    assert len(title) <= 80, (pid, len(title))
    a = dict(files=files,
             mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a['observe_at'] = observe or ['values returned by the sub-daily step',
                                  'values in the written files']
    a['hook_needed'] = None
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=a))


E2E = ('The tests run a handful of shipped data sets end to end and compare '
       'means or normalised errors against stored output; ')

prop('C01', 'Sub-daily precipitation conserves every daily total',
     'For every precipitation option, time step and storm timing, the '
     'sub-daily precipitation of a local day is never negative and sums to '
     'the daily total. The uniform option gives every step the same share; '
     'the triangle option puts the rain inside the storm, rising evenly to '
     'the peak time and falling evenly after it; the mix option is uniform exactly on days '
     'whose minimum temperature is below freezing.',
     ['inputs', 'configurations'],
     'Every daily series of precipitation and minimum temperature, every '
     'storm duration and peak (storms cut off by midnight included), every '
     'time step, period-beginning or period-ending, with or without UTC '
     'shifting (where the record total is conserved).',
     E2E + 'the error measure tolerates a lost or doubled step, and no test '
     'uses a storm that reaches midnight or the mix option.',
     [D], [('spreading and rescaling of each day', D + ':prec'),
           ('summing minutes to steps', D + ':prec'),
           ('filling of the tail', D + ':disaggregate')])

prop('C02', 'Sub-daily shortwave carries exactly the daily energy',
     'Over each local day the mean of the sub-daily shortwave equals the '
     'daily value averaged over 24 hours: a daily value that is a daylight '
     'average is weighted by the length of the day, one that is supplied as '
     'a whole-day average is not. It is never negative, is zero in steps '
     'without sun, and within the day follows the potential radiation of '
     'that day of the year.',
     ['inputs', 'configurations'],
     'Every daily shortwave series, day length and distribution of potential '
     'radiation over the day, every time step, both methods and both '
     'averaging conventions, any span of dates including leap days.',
     E2E + 'one latitude, one month and hourly steps, compared through '
     'means over the whole record.',
     [D], [('scaling to energy per step', D + ':shortwave'),
           ('choice of averaging period', D + ':disaggregate')])

prop('C03', 'UTC output is local output shifted by longitude',
     'With the UTC option, the value at any UTC time equals the value '
     'without the option at the corresponding local time, local time being '
     'UTC plus four minutes per degree of east longitude; this holds for '
     'temperature, precipitation, shortwave, wind and cloud alike. '
     'Longitudes that differ by whole turns give the same output, and '
     'longitude zero gives the local output.',
     ['inputs', 'configurations'],
     'Every longitude from -360 to 360 degrees whose offset is a whole '
     'number of steps, every daily input series; steps whose local time '
     'falls outside the record excepted.',
     E2E + 'the UTC option is switched on in one example whose values are '
     'never looked at.',
     [D], [('normalised longitude', D + ':disaggregate'),
           ('shift of radiation', D + ':shortwave'),
           ('shift of rise and set times', D + ':set_min_max_hour'),
           ('shift of minute series', D + ':prec, wind, tskc')])

prop('C04', 'Temperature follows the daily extremes at their times',
     'Sub-daily temperature never leaves the range spanned by the daily '
     'extremes of the neighbouring days, passes through the daily minimum '
     'at sunrise and the daily maximum at the configured fraction of the '
     'daylight period, and rises monotonically between them. In days '
     'without sunrise or sunset fixed times are used instead. The first '
     'half-day continues from the extremes of the day before the record.',
     ['inputs', 'configurations'],
     'Every series of daily minima and maxima, every sunrise and sunset '
     'time, every fraction in 0..1, every time step and number of days, '
     'with or without the preceding and following days.',
     E2E + 'an interpolant that overshoots or an extreme placed an hour off '
     'stays within the tolerated normalised error.',
     [D, M], [('times of the extremes', D + ':set_min_max_hour'),
              ('monotone interpolation', D + ':temp'),
              ('extremes of the adjoining days', M + ':wrap_run_cell')])

prop('C05', 'Humidity and pressure stay physical and mutually consistent',
     'Sub-daily vapor pressure never exceeds saturation at the same step, '
     'and below saturation it is the daily values joined linearly from '
     'sunrise to sunrise. Relative humidity is the ratio to saturation in '
     'percent, within 0 and 100, and specific humidity is the one implied '
     'by vapor and air pressure. Air pressure follows from elevation and '
     'temperature and is positive.',
     ['inputs'],
     'Every temperature within the range of the earth, every daily vapor '
     'pressure, elevation and lapse rate; below and above freezing.',
     E2E + 'saturation, freezing and high elevations are met only by '
     'accident of the data.',
     [D, 'metsim/physics.py'],
     [('clipping at saturation', D + ':vapor_pressure'),
      ('saturation curve', 'metsim/physics.py:svp'),
      ('relative and specific humidity',
       D + ':relative_humidity, specific_humidity'),
      ('air pressure', D + ':pressure')])

prop('C06', 'Longwave follows the chosen parameterisation and daily total',
     'For every pair of clear-sky and cloud options, in any capitalization, '
     'the sub-daily longwave is the published formula of that option '
     'applied to the temperature, vapor pressure and cloud of the same '
     'step, and is positive. When daily longwave is supplied, the sub-daily '
     'values keep that shape and average to the supplied value on every '
     'day.',
     ['inputs', 'configurations'],
     'All seven clear-sky and both cloud options, every temperature, vapor '
     'pressure and cloud fraction, every time step and supplied series.',
     E2E + 'only the default pair of options is ever run, without daily '
     'longwave.',
     [D, M], [('emissivity tables', D + ':longwave'),
              ('rescaling to the daily value', D + ':longwave'),
              ('check of the option names', M + ':_validate_setup')])

prop('C07', 'Estimated daily variables satisfy the MT-CLIM equations',
     'The estimated daylight temperature, cloud fraction, dewpoint, vapor '
     'pressure, shortwave and potential evaporation satisfy the published '
     'MT-CLIM relations with one another and with the inputs of the same '
     'day. Cloud fraction lies in 0..1, vapor pressure and shortwave are '
     'positive wherever the sun rises, and wet days receive the configured '
     'fraction of the dry-day transmittance.',
     ['inputs', 'configurations'],
     'Every daily minimum, maximum, precipitation, smoothed range, '
     'antecedent precipitation and day length; every value of the '
     'coefficients; however many rounds the dewpoint iteration takes.',
     E2E + 'estimates are compared only through their sub-daily '
     'consequences at one cell.',
     ['metsim/methods/mtclim.py', 'metsim/physics.py'],
     [('iteration for dewpoint', 'metsim/methods/mtclim.py:run'),
      ('transmittance', 'metsim/methods/mtclim.py:tfmax'),
      ('potential evaporation', 'metsim/physics.py:calc_pet')])

prop('C08', 'Solar geometry is bounded and normalised for every day',
     'For every day of the year, latitude and elevation, the length of the '
     'day lies between 0 and 24 hours, the shares of the radiation of a day '
     'are non-negative, vanish outside the day and sum to one whenever the '
     'sun rises (to zero otherwise), and clear-sky transmittance lies in '
     '0..1 and is that of the air above the elevation, averaged over the '
     'radiation of the day. Potential radiation is non-negative and bounded '
     'by the solar constant, and the 366th day repeats the 365th.',
     ['inputs'],
     'Every latitude from pole to pole, every elevation up to 9000 m, lapse '
     'rates around the default, every day of the year.',
     E2E + 'all data sets lie near one mid-latitude, where the polar '
     'branches are never taken.',
     ['metsim/physics.py'],
     [('day length and hour loop', 'metsim/physics.py:solar_geom')],
     observe=['tables of solar geometry'])

prop('C09', 'The result does not depend on how the domain is chunked',
     'However the domain is divided into chunks, every cell belongs to '
     'exactly one chunk and the written values are the same as in an '
     'undivided run, also when the chunks divide only some dimensions or '
     'do not divide them evenly. The order in which chunks run and finish '
     'does not matter.',
     ['configurations', 'schedules'],
     'Every domain size and chunk size per dimension, every subset of '
     'chunked dimensions, every order of the chunks.',
     E2E + 'each with a single chunking and one order.',
     [M], [('division into slices', M + ':chunk_domain, slices'),
           ('placing a chunk in the file', M + ':write_chunk')],
     observe=['values in the written files'])

prop('C10', 'Each cell depends only on its own inputs; masked cells stay empty',
     'The values written for a cell are a function of the forcing, state and '
     'domain values of that cell alone, located by coordinate and not by '
     'position, and stand at that cell. Cells whose mask is zero, negative '
     'or missing are never computed and hold the missing value.',
     ['inputs', 'configurations'],
     'Every mask, gridded (two-dimensional) or unit-based '
     '(one-dimensional) domains, forcing on a larger grid or in another '
     'order than the domain, every value at the other cells.',
     E2E + 'a mix-up between cells with similar values cannot be seen in a '
     'mean or a single column.',
     [M, IO], [('loop over the mask', M + ':run_slice'),
               ('selection by coordinate', IO + ':read_netcdf'),
               ('per-cell run', M + ':wrap_run_cell')],
     observe=['values in the written files'])

prop('C11', 'The output time axis is complete, uniform and correctly labelled',
     'The time stamps of a run cover every step of every day from start to '
     'stop once, evenly spaced, and the value stored under a stamp is the '
     'value of that step. Period-ending output carries the same values with '
     'stamps exactly one step later. Splitting the output into files only '
     'partitions the stamps: no step is lost, repeated or moved, and no '
     'file replaces another.',
     ['configurations', 'inputs'],
     'Every time step, start and stop (anywhere inside the forcing), '
     'splitting frequency including several files per day, '
     'period-beginning and period-ending, daily and sub-daily.',
     E2E + 'one test compares the stamps of two period conventions without '
     'looking at values; splitting is untested.',
     [M, D, 'metsim/datetime.py'],
     [('output stamps', M + ':_get_output_times'),
      ('cutting to the run', M + ':wrap_run_cell'),
      ('file names', M + ':get_nc_output_suffix'),
      ('stamp ranges', 'metsim/datetime.py:date_range')],
     observe=['times and values in the written files'])

prop('C12', 'Date arithmetic honours the calendar of the forcings',
     'Ranges of dates run from start to end in equal steps in every '
     'supported calendar; in calendars without leap days February 29 never '
     'appears, also not when counting the ninety days before the start. The '
     'written time axis uses the calendar of the forcings and decodes to '
     'the days that were run.',
     ['inputs', 'configurations'],
     'Every start and end date in years 1900 to 2100, every step from one '
     'minute to a day, standard and noleap calendars.',
     'All test data use the standard calendar within one or two months.',
     ['metsim/datetime.py', M],
     [('date ranges', 'metsim/datetime.py:date_range'),
      ('calendar of the run', M + ':_validate_force_times'),
      ('written time axis', M + ':setup_netcdf_output')],
     observe=['date ranges', 'time axis of the written files'])

prop('C13', 'Written values agree with their declared units and names',
     'Each output variable is written under its configured name, and its '
     'value is the internal quantity converted to the unit stated in its '
     'attributes by the physical conversion factor. A unit that is not '
     'offered falls back to the default unit, in the values and in the '
     'attribute alike. Time is labelled as UTC exactly when UTC output was '
     'requested.',
     ['inputs', 'configurations'],
     'Every output variable, every offered or unknown unit, every time '
     'step, every value.',
     'One test compares two units of two variables through means.',
     [M, 'metsim/units.py'],
     [('conversion table', 'metsim/units.py:converters'),
      ('choice of unit', M + ':_update_unit_attrs'),
      ('attributes', M + ':setup_netcdf_output')],
     observe=['values and attributes in the written files'])

prop('C14', 'A run is not affected by earlier or concurrent runs',
     'The output of a run, data and metadata, depends only on its own '
     'configuration and inputs, not on what other runs were configured or '
     'executed before it in the same process or between its set-up and its '
     'execution. The caller\'s configuration and data are not altered in a '
     'way that changes a repetition of the run.',
     ['histories', 'configurations'],
     'Every pair of configurations run, or merely set up, in sequence or '
     'interleaved in one process.',
     'The tests share one process, but each checks only values that the '
     'preceding configuration happens not to disturb.',
     [M, IO], [('parameters of a run', M + ':MetSim.__init__'),
               ('attributes of a run', M + ':_update_unit_attrs'),
               ('default outputs', IO + ':read_ini_config')],
     state=[('class and module tables',
             'defaults and attributes shared by all runs in a process', M)],
     observe=['values and attributes in the written files'])

prop('C15', 'Binary forcings are decoded value by value',
     'Every two-byte value of a binary forcing file reaches the variable and '
     'day given by its position: variables in the configured order, '
     'interleaved day by day. Its value is the stored integer, signed or '
     'unsigned as configured, divided by the configured scale. Any number '
     'of variables may be configured.',
     ['inputs', 'configurations'],
     'Every content of the file, every number and order of variables, '
     'scale and signedness, every number of days, trailing data included.',
     'The tests read files with four variables of one shape.',
     [IO], [('record loop', IO + ':read_binary')],
     observe=['decoded forcing data'])

prop('C16', 'Per-cell text and binary forcings land on their own cell',
     'For forcings stored in one file per cell, the content of a file '
     'appears at the cell whose latitude and longitude its name carries and '
     'nowhere else, columns going to the configured variables and rows to '
     'consecutive days. Files outside the domain or its mask are ignored, '
     'in whatever order the files are listed.',
     ['inputs', 'configurations'],
     'Every file content, list order, domain and mask, text and binary '
     'format.',
     'The tests look at one cell of sixteen and at no misplaced file.',
     [IO], [('file loop', IO + ':process_vic'),
            ('text reader', IO + ':read_ascii')],
     observe=['assembled forcing data', 'values in the written files'])

prop('C17', 'Antecedent conditions join state and forcing without a gap',
     'The antecedent precipitation of a day is the annualised mean of the '
     'ninety days ending with that day, and the smoothed temperature range '
     'the mean of the thirty days ending with it, both continuing from the '
     'supplied state into the run. Every cell continues its own state, '
     'whatever the order of the axes and cells of the state file and '
     'however many other cells it holds. A record where a daily maximum is below '
     'the minimum is refused, and so is a state that does not hold ninety '
     'days.',
     ['inputs', 'histories'],
     'Every state and forcing series and every length of run, including '
     'runs longer than the windows; a run split in two with a matching '
     'state agrees with the unsplit run.',
     'The tests never look at these intermediate series, and runs are '
     'shorter than the windows.',
     [M], [('windows', M + ':_aggregate_state'),
           ('dates of the state', M + ':_validate_force_times')],
     observe=['antecedent series of the run'])

prop('C18', 'Invalid configurations are refused before anything is computed',
     'A run whose configuration lacks a required entry or input, names an '
     'unknown method, longwave option or precision, asks for a variable that '
     'does not exist at its time step, or has a time step that is not daily and does not '
     'divide the day into steps of at most six hours, is refused with an '
     'error and writes no file. Every valid configuration is accepted. A '
     'run that reaches outside the forcing record is refused.',
     ['configurations'],
     'Every integer time step, every option value and subset of entries '
     'and output variables, every start and stop relative to the record.',
     'No test feeds an invalid configuration.',
     [M], [('checks', M + ':_validate_setup'),
           ('record check', M + ':_validate_force_times')],
     observe=['error raised', 'files written'])

prop('C19', 'Passed-through variables reach the output unchanged',
     'With the passthrough method, variables that are supplied are used as '
     'they are and never replaced by estimates; daily output repeats them '
     'exactly, and sub-daily output is disaggregated from them. Only '
     'variables that are absent are estimated, by the same relations as in '
     'full estimation, and shortwave must be supplied.',
     ['inputs', 'configurations'],
     'Every subset of supplied variables and every value of them.',
     'The test supplies one subset and compares means after '
     'disaggregation.',
     ['metsim/methods/passthrough.py', M],
     [('use of supplied variables', 'metsim/methods/passthrough.py:run'),
      ('daily output', M + ':wrap_run_cell')])

prop('C20', 'Constant variables override the forcing everywhere',
     'A variable configured as constant has exactly that value on every day '
     'and in every cell of the run, whether or not the forcing also '
     'supplies it, and no other variable changes. The result equals a run '
     'whose forcing file holds the constant.',
     ['inputs', 'configurations'],
     'Every variable, value, notation of the number and forcing format.',
     'The tests only check that such a run finishes.',
     [M], [('filling in constants', M + ':met_data')],
     observe=['forcing used by the run', 'values in the written files'])

prop('C21', 'Both configuration formats describe the same run',
     'Equivalent INI and YAML files lead to the same forcing, domain and '
     'state variable mappings, flags, paths, output variables and dates; '
     'flags are true exactly when written as true in any capitalization. '
     'Output variables, names and units are the requested ones, with the '
     'default unit where none is given.',
     ['configurations', 'programs'],
     'Every choice of entries, file format of the forcings and spelling of '
     'the flags.',
     'Each format is exercised with its own example and the resulting '
     'settings are not compared.',
     [IO], [('INI reader', IO + ':read_ini_config'),
            ('YAML reader', IO + ':read_yaml_config')],
     observe=['settings returned by the readers', 'outcome of the run'])

prop('C22', 'Gridded forcings are aligned with the domain by day and place',
     'The value used for a cell and day is the one the forcing file holds '
     'for that coordinate and calendar day, whatever the order of the '
     'file\'s axes or dimensions, its extra cells or days, its variable '
     'names, or the time of day of its stamps, as long as that lies within '
     'the day. Days outside the run are not used.',
     ['inputs'],
     'Every permutation and superset of coordinates, every stamp within '
     'the day, every start and stop inside the record.',
     'All test files share one layout that matches the domain.',
     [IO], [('selection and rounding of stamps', IO + ':read_netcdf'),
            ('data given directly', IO + ':read_data')],
     observe=['forcing used by the run'])

prop('C23', 'Storm parameters of a day come from its own month and cell',
     'When storm duration and peak are given per month, every simulated day '
     'uses the values of its own calendar month at its own cell, for runs '
     'that start and end anywhere in the year and span year boundaries.',
     ['inputs', 'configurations'],
     'Every table of monthly values, every day of the year, every cell.',
     'The single test that uses monthly values never looks at the result.',
     [M], [('monthly to daily', M + ':convert_monthly_param')],
     observe=['storm parameters of each day', 'sub-daily precipitation'])

prop('C24', 'Wind and cloud of a day hold through that day',
     'Sub-daily wind and cloud fraction equal the daily value at every step '
     'of that local day, for every time step; wind appears in the output '
     'exactly when it is supplied. No value of a neighbouring day leaks in '
     'without UTC shifting.',
     ['inputs', 'configurations'],
     'Every daily series, number of days and time step.',
     E2E + 'the error measure tolerates a shift by a step.',
     [D], [('repeat and average', D + ':wind, tskc')])

prop('C25', 'Runs over different periods of one record agree',
     'Two runs over different periods of the same record, each with the '
     'state that precedes it, write the same values for the days they '
     'share, in daily and in sub-daily output, wherever a run starts within '
     'the year and whether or not the files hold further days. Only what is '
     'interpolated between days may differ, on the first and last day of a '
     'run.',
     ['inputs', 'histories', 'configurations'],
     'Every record, every pair of periods, every time step and latitude.',
     E2E + 'no two runs are compared.',
     [M, D], [('joining the state', M + ':_unpack_state'),
              ('day of the year', M + ':wrap_run_cell'),
              ('days of the run', M + ':_validate_force_times')])

prop('C26', 'Options that are left out act as their documented defaults',
     'A run whose configuration leaves out an optional entry writes the same '
     'files, variables and values as one that gives the default of the '
     'documentation, for each entry on its own and for all of them together: '
     'method, names, period, coefficients, thresholds, longwave options, '
     'type of precipitation, flags, splitting, chunks and output variables.',
     ['inputs', 'configurations'],
     'Every record within the bounds, every optional entry, daily and '
     'sub-daily output.',
     E2E + 'every test gives the entries that matter to it, and none compares '
     'a default with its documentation.',
     [M], [('defaults', M + ':MetSim.params')])

prop('C27', 'Every output file describes the run it holds',
     'Every file has the dimensions and coordinates of the domain and its '
     'own axis of time, exactly the variables that were asked for, on time '
     'and the dimensions of the domain, in the precision that was asked for, '
     'each with unit, name and missing value. The settings of the run, among '
     'them entries that the program does not know, are found among the '
     'attributes of the file as they were given (text without quotation '
     'marks), with the first and last day, and all files of a run have the '
     'same ones.',
     ['inputs', 'configurations'],
     'Every number and text among the settings, every domain, every way of '
     'giving the period, split and unsplit output.',
     E2E + 'only the values of the variables are looked at.',
     [M], [('header of a file', M + ':setup_netcdf_output'),
           ('descriptions', M + ':attrs')],
     observe=['dimensions, coordinates and attributes of written files'])

prop('C28', 'The output of a coarser time step aggregates that of a finer one',
     'Running the same forcings at two time steps, one a multiple of the '
     'other, gives consistent records: the precipitation of a coarse step is '
     'the sum of that of the fine steps in it, shortwave, wind and cloud '
     'fraction are their mean; and a daily run gives the totals and means of '
     'every sub-daily run. Splitting the day more finely neither moves water '
     'or light between coarse steps nor makes or loses any, in local time and '
     'in UTC, for every way of spreading precipitation.',
     ['inputs', 'configurations'],
     'Every daily forcing within the bounds, pairs of time steps, offsets, '
     'storm parameters.',
     E2E + 'all steps of both records are compared.',
     [M, 'metsim/disaggregate.py'],
     [('spreading', 'metsim/disaggregate.py:disaggregate'),
      ('precipitation', 'metsim/disaggregate.py:prec'),
      ('shortwave', 'metsim/disaggregate.py:shortwave')],
     observe=['output files of two runs'])

prop('C29', 'A failure anywhere in a run reaches the caller',
     'If reading an input, writing an output, the method or the sub-daily '
     'step of any cell fails, run() (or the constructor) raises: no run '
     'returns normally with a part of its output missing, left at fill '
     'values or made of stale values. Afterwards a run of a new instance in '
     'the same process with the same configuration is complete and correct: '
     'nothing of the failed run (locks, open files, module state, leftover '
     'files) stays in its way.',
     ['crash_points', 'fault_sequences', 'configurations'],
     'Every point of the run at which a file is opened, created, read, '
     'written or closed, or a cell is computed, and every kind of failure '
     'there.',
     E2E + 'the point and kind of the failure are chosen by the solver.',
     [M, 'metsim/io.py'],
     [('computation', M + ':run'), ('writing', M + ':write_chunk'),
      ('cells', M + ':run_slice'),
      ('files of cells', 'metsim/io.py:process_vic')],
     observe=['the exception of run()', 'output files of the next run'])

prop('C30', 'What is asked for does not change what is computed',
     'The values of an output variable do not depend on which other variables '
     'are asked for, in which order, under which names or in which units '
     'these are, on how the output is split into files or named, on its '
     'precision (beyond rounding to it), or on how much the run prints.',
     ['inputs', 'configurations'],
     'Every forcing within the bounds, every selection, order and naming of '
     'output variables listed.',
     E2E + 'two whole runs on the same forcing are compared.',
     [M], [('output variables', M + ':__init__'),
           ('selection', M + ':wrap_run_cell'),
           ('writing', M + ':write_chunk')],
     observe=['output files of two runs'])

prop('C31', 'The same forcings in another format give the same output',
     'A run on daily values that are given as netCDF, as an in-memory '
     'dataset, as one text file or as one binary file per cell writes the '
     'same files with the same variables, values and missing values, '
     'whatever the order of the columns, the mask, the position of the cells '
     'and the rest of the configuration; values after the end of the period '
     'in a longer file are not used.',
     ['inputs', 'configurations'],
     'Every value of the forcings within the bounds and every content of '
     'the files of the cells, domains, periods.',
     E2E + 'whole runs on the same values in each format are compared.',
     ['metsim/io.py', M],
     [('dispatch', 'metsim/io.py:read_met_data'),
      ('files of cells', 'metsim/io.py:process_vic'),
      ('netCDF', 'metsim/io.py:read_netcdf'),
      ('dataset', 'metsim/io.py:read_data')],
     observe=['output files of the runs'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
