"""The properties: statements (source of properties.jsonl and MANIFEST.json), the scenario profile that exercises each, and
the obligations of the specification (tags) that decide it."""

L = 'src/oifitslib/'


class P:
    def __init__(self, pid, title, statement, over, qtext, why, files, mech, profile, tags, n, ops=(), note='', mc=(), asan=False):
        self.pid, self.title, self.statement = pid, title, statement
        self.over, self.qtext, self.why = over, qtext, why
        self.files, self.mech = files, mech
        self.profile, self.tags, self.n, self.ops = profile, tags, n, ops
        self.note, self.mc, self.asan = note, mc, asan


PROPS = []


def add(*a, **k):
    PROPS.append(P(*a, **k))


# profile: list of (maker, weight, kwargs); n: (quick, thorough) number of scenarios
add('C01', 'A dataset written to a file and read back is the same dataset',
    'Writing any consistent in-memory dataset to a new file succeeds, and reading that file back yields the same primary '
    'header, targets, arrays, wavelength, correlation and polarisation tables and the same data tables, record for record, '
    'value for value and in the same order. The only differences are the documented ones: tables take the latest revision '
    'number, TIME is zero, the date is that of writing, and items that the format only stores in certain modes are dropped '
    'when not in use.',
    ['inputs', 'configurations'], 'every consistent dataset: any number of tables of each kind, any optional columns in use or not, '
    'any values including NaN and infinities, any names up to the format limits, either format version',
    'The tests read a few fixed files and never compare a written dataset with the one read back.',
    [L + 'write_fits.c', L + 'read_fits.c', L + 'oifile.c', L + 'alloc_fits.c'],
    [('column-by-column writers', L + 'write_fits.c'), ('column-by-column readers', L + 'read_fits.c'),
     ('whole-file write and read', L + 'oifile.c write_oi_fits, read_oi_fits')],
    [('io', 6, {}), ('v1', 1, {}), ('wide', 1, {}), ('model', 0, {'name': 'io', 'every': (10, 120)})], r'write|read|form|unmod\.write', (960, 4000), ('write', 'read'), mc=('io',))

add('C02', 'Written files are well-formed OIFITS version 2',
    'Every file written, whole or table by table, has the structure that the OIFITS 2 standard prescribes: the tables in order with their '
    'standard names, revision numbers and per-kind version numbers, every mandatory keyword and column with the prescribed '
    'type, dimension and unit, optional ones exactly when in use, and valid checksums. Each stored value equals the value in memory.',
    ['inputs', 'configurations'], 'every consistent dataset and every sequence of table writes',
    'No test inspects a written file other than by reading it with the same library, where matching errors cancel.',
    [L + 'write_fits.c', L + 'oifile.c'],
    [('table writers', L + 'write_fits.c write_oi_*'), ('checksums', L + 'write_fits.c fits_write_chksum')],
    [('io', 3, {}), ('table', 3, {}), ('wide', 1, {}), ('model', 0, {'name': 'upgrade', 'every': (6, 9)})], r'write|form|twrite', (900, 3600), ('write', 'twrite', 'fclose'), mc=('io',))

add('C03', 'Table-at-a-time reading returns the tables of the file, each once, in order',
    'Reading the next table of a kind returns exactly the content of the first table of that kind after the current position and moves there, or reports '
    'end-of-file when there is none; reading a table by name returns the one with that kind and name wherever it is, or an error. '
    'Tables written one at a time read back identical, and a file built this way reads as a whole.',
    ['histories', 'inputs'], 'every file, starting position, and sequence of next/by-name/seek/write operations on it',
    'Tests never use the table-level interface beyond what whole-file reading does on fixed files.',
    [L + 'read_fits.c', L + 'write_fits.c'],
    [('next-table search', L + 'read_fits.c next_named_hdu'), ('by-name search', L + 'read_fits.c specific_named_hdu')],
    [('table', 3, {}), ('foreign', 3, {'hurt': False}), ('model', 0, {'name': 'io', 'every': (10, 120)})], r'tread|twrite|form|read', (960, 4000),
    ('tnext', 'tname', 'twrite', 'read', 'fclose'), mc=('io',))

add('C04', 'Files from other writers are read correctly',
    'A valid OIFITS 1 or 2 file is read completely and with unchanged values however it was laid out: any table and column order, '
    'case of column names, storage types and string widths allowed by the standard, additional columns, keywords, images and foreign tables. Text longer than '
    'the format allows is cut to the allowed length and optional items absent from the file get their documented default.',
    ['inputs'], 'every valid file: layouts that this library would never write itself',
    'The tests read only the handful of files in the repository.',
    [L + 'read_fits.c', L + 'oifile.c'],
    [('column lookup by name', L + 'read_fits.c'), ('optional keywords and columns', L + 'read_fits.c read_key_opt_*'),
     ('whole-file read', L + 'oifile.c read_oi_fits')],
    [('foreign', 1, {'hurt': False}), ('model', 0, {'name': 'io', 'every': (10, 120)})], r'read|tread|badfile', (1080, 4000), ('read', 'tnext', 'tname'), mc=('io',))

add('C05', 'Damaged files never yield silently wrong data',
    'If a mandatory keyword or column is missing or has an unusable type, reading that table reports an error. Reading a whole file fails if the target table or '
    'any array or wavelength table is unusable or the file is not FITS; an unusable table of another kind is left out and all others are still read completely.',
    ['inputs', 'fault_sequences'], 'every way of removing or altering keywords, columns and tables of a valid file',
    'Two fixed bad files are tested; every other combination of damage is not.',
    [L + 'read_fits.c', L + 'oifile.c'],
    [('status propagation', L + 'read_fits.c'), ('skipping bad tables', L + 'oifile.c read_oi_fits')],
    [('foreign', 8, {'hurt': True}), ('status', 1, {}), ('model', 0, {'name': 'io', 'every': (10, 120)})], r'read|tread|badfile|status', (1200, 5000), ('read', 'tnext', 'tname'), mc=('io',))

add('C06', 'First-version data is recognised, given a header, and upgraded without loss',
    'A dataset counts as version 2 exactly when the primary header says so (CONTENT is OIFITS2), and as version 1 exactly when it does not and all target, array, wavelength, visibility, squared visibility and triple product tables carry version 1 revision numbers. Reading a version 1 file fills in the '
    'primary header from its tables (telescope, instrument, object, first date of observation), and upgrading or rewriting it changes revision numbers and zeroes times but no '
    'other value; upgrading again changes nothing.',
    ['inputs', 'histories'], 'every version 1 dataset and every mixture of table revisions',
    'One fixed version 1 file is read by the tests; the derived header and the upgrade are not compared with anything.',
    [L + 'oifile.c', L + 'read_fits.c'],
    [('version predicates', L + 'oifile.c is_oi_fits_one, is_oi_fits_two'), ('header synthesis', L + 'oifile.c set_oi_header'),
     ('upgrade', L + 'oifile.c upgrade_oi_*')],
    [('v1', 4, {}), ('upgrade', 3, {}), ('query', 1, {}), ('model', 0, {'name': 'upgrade', 'every': (6, 9)})], r'read|write|form|sethdr|version|upgrade|dup', (1080, 4000),
    ('read', 'write', 'sethdr', 'query', 'upgrade', 'dup'), mc=('upgrade',))

add('C07', 'Merging loses, duplicates and alters no measurement',
    'The merged dataset contains every data table, record and polarisation record of every input exactly once, inputs in the given order and tables in their original order, '
    'with all measured values, errors, flags, times and coordinates unchanged. Only the names of referenced tables and target numbers may differ.',
    ['inputs'], 'every list of two or more consistent datasets, including repeated, overlapping and clashing ones',
    'No merge test is among the reliable tests, and those that exist merge a few fixed files.',
    [L + 'oimerge.c', L + 'oifile.c'],
    [('table copies', L + 'oifile.c dup_oi_*'), ('merging of data tables', L + 'oimerge.c merge_all_oi_*')],
    [('merge', 1, {}), ('model', 0, {'name': 'merge', 'every': (1, 16)})], r'merge\.data', (1080, 5000), ('merge',), mc=('merge',))

add('C08', 'After merging every reference still denotes the same thing',
    'For every record of the merged dataset, the target, array, wavelength and correlation tables it refers to exist and describe the same target '
    'and the same array, spectral setup and correlations as in the input it came from. Names of arrays, spectral setups and correlation tables and target numbers are unique in the result.',
    ['inputs'], 'every list of consistent datasets, in particular those using equal names for different things and different names for equal things',
    'Clashes of names and repeated merging are combinations that the fixed merge test files do not contain.',
    [L + 'oimerge.c'],
    [('target renumbering', L + 'oimerge.c merge_oi_target'), ('name maps', L + 'oimerge.c merge_all_oi_array, merge_all_oi_wavelength, merge_all_oi_corr')],
    [('merge', 9, {}), ('merge', 1, {'big': True}), ('model', 0, {'name': 'merge', 'every': (1, 16)})], r'merge\.refs', (1080, 5000), ('merge',), mc=('merge',))

add('C09', 'Merging shares identical tables and keeps distinct ones',
    'The merged dataset has one target entry per distinct target name, and array and wavelength tables of different inputs that agree are represented by a single table. '
    'Tables that differ, and all correlation tables, are each kept with their full content.',
    ['inputs'], 'every list of consistent datasets with any overlap between their targets, arrays and spectral setups',
    'The fixed merge test files sample a few overlaps only.',
    [L + 'oimerge.c'],
    [('table matching', L + 'oimerge.c match_oi_array, match_oi_wavelength'), ('target matching by name', L + 'oimerge.c merge_oi_target')],
    [('merge', 9, {}), ('merge', 1, {'big': True}), ('model', 0, {'name': 'merge', 'every': (1, 16)})], r'merge\.dedup', (1080, 5000), ('merge',), mc=('merge',))

add('C10', 'The merged header summarises all inputs',
    'Each primary header item of a merged dataset has the common value of the inputs, or says that there are multiple values, and the date of observation is the earliest of those of the inputs. The content keyword and all table '
    'revisions are those of version 2.',
    ['inputs'], 'every list of consistent datasets and every mixture of equal, different and empty header values and versions',
    'Only a few combinations of header values occur in the fixed merge test files.',
    [L + 'oimerge.c'],
    [('header merging', L + 'oimerge.c merge_oi_header'), ('dates', L + 'datemjd.c')],
    [('merge', 1, {}), ('model', 0, {'name': 'merge', 'every': (1, 16)})], r'merge\.header', (1080, 5000), ('merge',), mc=('merge',))

add('C11', 'A filter keeps exactly the data it accepts',
    'The filtered dataset consists of exactly the tables, records and spectral channels that satisfy every criterion of the filter (array, instrument and correlation name patterns, target, data kinds, '
    'dates, wavelengths, baselines, spatial frequencies, signal-to-noise, flags), in original order. Data rejected only for their '
    'signal-to-noise or spatial frequency in a kept record are flagged, and no kept value is altered.',
    ['inputs', 'configurations'], 'every consistent dataset and every filter, including limits met exactly, NaN values, and patterns that match everything or nothing',
    'The tests try each criterion alone on one file and mostly check only a range of the surviving values.',
    [L + 'oifilter.c'],
    [('per-kind filtering', L + 'oifilter.c filter_oi_*'), ('criteria', L + 'oifilter.c ACCEPT_*, any_*_chan_ok')],
    [('filter', 3, {}), ('filter', 2, {'heavy': True}), ('model', 0, {'name': 'filter', 'every': (2, 14)})], r'filter\.sel', (1200, 6000), ('filter',), mc=('filter',))

add('C12', 'Filtered datasets are complete and consistent',
    'After filtering, every target, array, wavelength and correlation table referred to by surviving data is present with matching dimensions, nothing unreferenced or empty remains except the targets, '
    'and lookups by name and number on the result find exactly the surviving tables.',
    ['inputs', 'histories'], 'every consistent dataset, every filter, and every sequence of filters applied one after another',
    'The tests do not check the consistency of filter output with name filters and data criteria combined.',
    [L + 'oifilter.c'],
    [('pruning of unreferenced tables', L + 'oifilter.c prune_*'), ('channel selection shared between tables', L + 'oifilter.c useWave hash')],
    [('filter', 3, {}), ('filter', 2, {'heavy': True}), ('model', 0, {'name': 'filter', 'every': (2, 14)})], r'filter\.sound|lookup\..*', (1200, 6000), ('filter', 'lookup'), mc=('filter',))

add('C13', 'The default filter keeps ordinary data, and filtering twice changes nothing',
    'The default filter passes every dataset of ordinary data unchanged except for removal of unreferenced tables. Applying the same filter to its own output leaves it unchanged.',
    ['inputs', 'configurations'], 'every consistent dataset; every filter for the second part',
    'The default filter is tested on one file and by counting; filtering twice is not tested.',
    [L + 'oifilter.c'],
    [('default limits', L + 'oifilter.c init_filter'), ('per-kind filtering', L + 'oifilter.c filter_oi_*')],
    [('default', 2, {}), ('filter', 1, {}), ('model', 0, {'name': 'filter', 'every': (2, 14)})], r'filter\.default|filter\.again', (1080, 5000), ('filter',), mc=('filter',))

add('C14', 'Operations never modify their inputs, and results are independent copies',
    'Duplicating, filtering, merging, checking and writing leave their input datasets unchanged in every value. Their results share no storage with the inputs: changing or releasing any dataset '
    'leaves all the others as they were, in whatever order datasets are released.',
    ['histories', 'inputs'], 'every sequence of operations over a pool of datasets and every order of releasing them',
    'Tests release inputs and outputs in one fixed order and do not compare datasets before and after.',
    [L + 'oifile.c', L + 'oifilter.c', L + 'oimerge.c', L + 'free_fits.c'],
    [('deep copies', L + 'oifile.c dup_oi_*'), ('release', L + 'oifile.c free_oi_fits; ' + L + 'free_fits.c')],
    [('copy', 2, {}), ('history', 1, {}), ('sim', 0.3, {}), ('model', 0, {'name': 'sys', 'every': (12, 2)})], r'unmod\..*|dup|dump', (900, 4000),
    ('dup', 'filter', 'merge', 'check', 'write', 'free', 'scribble', 'dump', 'exit'), mc=('sys',))

add('C15', 'Iterators visit exactly the accepted data, in order',
    'Iterating over visibilities, squared visibilities or triple products with a filter visits, in table, record and channel order, exactly the data points the filter accepts, each once, then reports the end forever. '
    'Each visit gives the right table, record, channel, wavelength and spatial frequencies, and iterators do not disturb each other or the data.',
    ['inputs', 'histories', 'schedules'], 'every consistent dataset, every filter or none, and every interleaving of several iterators over the same or different datasets, including restarts',
    'The tests run one iterator at a time over one or two files and spot-check ranges.',
    [L + 'oiiter.c', L + 'oifilter.c'],
    [('iterator step', L + 'oiiter.c oi_*_iter_next'), ('record and channel acceptance', L + 'oiiter.c, ' + L + 'oifilter.c')],
    [('iter', 1, {}), ('model', 0, {'name': 'iter', 'every': (150, 3000)}), ('model', 0, {'name': 'iterall', 'every': (2, 14)})], r'iter|iterflt|dump', (1200, 6000), ('iterinit', 'iternext'), mc=('iter',))

add('C16', 'Iterating, filtering and counting agree',
    'For filters that reject flagged data, iterating over a dataset with the filter visits the same number of data points, with the same wavelengths and spatial frequencies, as iterating over all unflagged data of the filtered dataset, '
    'and this is the number of data points that the counting functions report for it.',
    ['inputs', 'configurations'], 'every consistent dataset and every filter that rejects flagged data',
    'Iterators and filters are implemented separately and no test compares them.',
    [L + 'oiiter.c', L + 'oifilter.c', L + 'oifile.c'],
    [('counting', L + 'oifile.c count_oi_fits_data'), ('iterator step', L + 'oiiter.c'), ('filter', L + 'oifilter.c')],
    [('iterfilter', 1, {}), ('model', 0, {'name': 'iterall', 'every': (2, 14)})], r'iter|iterflt|filter\.sel|count', (960, 5000), ('iterinit', 'iternext', 'filter', 'query'), mc=('iter',))

add('C17', 'Each conformance check reports exactly the breaches of its rule',
    'For every dataset, each of the fourteen conformance checks reports the severity, the number of breaches of its rule and the locations of the first ones (table, record, channel) exactly as the rule of the standard implies for that dataset; '
    'it reports nothing when there is no breach.',
    ['inputs'], 'every dataset, with any combination and number of breaches, in either format version',
    'The tests run each check on one conforming and one broken file and look at the severity only.',
    [L + 'oicheck.c'],
    [('the checks', L + 'oicheck.c check_*'), ('collection of results', L + 'oicheck.c set_result')],
    [('check', 5, {}), ('check', 2, {'many': True}), ('clean', 2, {}), ('model', 0, {'name': 'check', 'every': (2, 1)})], r'check\.(?!text).*', (1440, 8000), ('check',), mc=('check',))

add('C18', 'Check reports are complete and readable text',
    'The text of a check result states the number of occurrences found and lists the locations, at most ten lines with the last saying that the list is truncated, for any number and mixture of breaches. Without breaches there is no text, '
    'and no dataset makes a check stop the program.',
    ['inputs'], 'every dataset with any number and mixture of breaches',
    'The report text is not examined by any test, and the test files never exceed the report limit.',
    [L + 'oicheck.c'],
    [('report formatting', L + 'oicheck.c format_check_result'), ('truncation', L + 'oicheck.c set_result')],
    [('check', 3, {'many': True}), ('check', 1, {}), ('clean', 1, {}), ('model', 0, {'name': 'check', 'every': (2, 1)})], r'check\.text', (1080, 6000), ('check',), mc=('check',))

add('C19', 'Lookups find the right table, target or element, or nothing',
    'Looking up an array, spectral setup or correlation table by name, a target by number or name, or an array element by array name and index returns the entry of the dataset with that key, and nothing if there is none. '
    'This holds for datasets just built, read from file, filtered or merged, and after other datasets are released.',
    ['inputs', 'histories'], 'every dataset and key, after every sequence of operations that produced the dataset',
    'Lookups are used by tests only on freshly read files with keys known to be present.',
    [L + 'oifile.c', L + 'oifilter.c', L + 'oimerge.c'],
    [('hash tables keyed by name', L + 'oifile.c arrayHash, wavelengthHash, corrHash'), ('lookup functions', L + 'oifile.c oi_fits_lookup_*')],
    [('lookup', 3, {}), ('reuse', 1, {}), ('history', 1, {}), ('io', 1, {}), ('foreign', 1, {'hurt': False}), ('model', 0, {'name': 'filter', 'every': (2, 14)})], r'lookup\..*', (1020, 5000), ('lookup',), mc=('sys',))

add('C20', 'Errors are reported, and an earlier error stops all work',
    'A read, write or table operation called with an error status set does nothing at all and keeps the status. A failed operation sets a non-zero status and returns the same value, '
    'and when writing cannot complete (missing directory, full device) success is never reported for an incomplete file. Unless messages are switched off, each failed operation also explains its '
    'status on the error output; successful ones, those stopped by an earlier error, and the search for a further table that finds none print no error.',
    ['fault_sequences', 'histories'], 'every operation with every incoming status and every point at which writing can fail',
    'Tests only pass a zero status and never make writing fail.',
    [L + 'read_fits.c', L + 'write_fits.c', L + 'oifile.c'],
    [('inherited status convention', L + 'read_fits.c, ' + L + 'write_fits.c, ' + L + 'oifile.c')],
    [('status', 3, {}), ('disk', 3, {}), ('io', 1, {}), ('table', 1, {}), ('foreign', 2, {'hurt': True}), ('model', 0, {'name': 'status', 'every': (40, 300)})],
    r'status|status.tail|write|badfile|errmsg|tstatus', (1200, 4000), ('read', 'write', 'tnext', 'tname', 'twrite'), mc=('status',))

add('C21', 'An existing file is never overwritten unless asked',
    'Writing a dataset to the name of an existing file fails and leaves that file unchanged. The merge, filter and upgrade commands likewise leave an existing output file untouched, except when the filter command is told to overwrite.',
    ['histories', 'inputs'], 'every dataset, existing file content and sequence of writes and command invocations',
    'No test writes to an existing file.',
    [L + 'oifile.c', 'src/util/oifits-merge.c', 'src/util/oifits-filter.c', 'src/util/oifits-upgrade.c'],
    [('exclusive creation', L + 'oifile.c write_oi_fits'), ('clobber option', 'src/util/oifits-filter.c')],
    [('over', 3, {}), ('cli', 2, {}), ('model', 0, {'name': 'cli', 'every': (60, 40)})], r'overwrite', (720, 3000), ('write', 'cli'), mc=('cli',))

add('C22', 'Counts and atomicity are computed correctly',
    'The number of data points reported for a dataset is the number of unflagged visibilities, squared visibilities and triple products in it. A dataset is reported as atomic exactly when '
    'it has a single array, spectral setup and target and its records lie within the given time span. A newly initialised dataset is empty in every respect.',
    ['inputs'], 'every dataset and every time span, including spans met exactly',
    'Counting is tested on one file; atomicity on a few.',
    [L + 'oifile.c'],
    [('counting', L + 'oifile.c count_oi_fits_data'), ('atomicity', L + 'oifile.c is_atomic')],
    [('query', 1, {}), ('model', 0, {'name': 'upgrade', 'every': (6, 9)})], r'count|atomic|init', (1200, 6000), ('query', 'init'), mc=('sys',))

add('C23', 'Calendar dates and Modified Julian Dates convert exactly',
    'Converting a Modified Julian Date to a calendar date gives the Gregorian date of that day, and converting a calendar date of the years 1901 to 2099 gives its Modified Julian Date, so the two conversions are inverse to each other.',
    ['inputs'], 'every day of the supported range',
    'Tests sample a handful of dates.',
    [L + 'datemjd.c'],
    [('calendar arithmetic', L + 'datemjd.c')],
    [('dates', 1, {})], r'mjd2date|date2mjd', (0, 0), ('mjd2date', 'date2mjd'), mc=('dates',))

add('C24', 'The merge command does what the merge operation promises',
    'The merge command writes exactly the merge of its input files, in the order given, to the output file and prints a summary of it. On unreadable input, wrong usage or an existing output it exits with a non-zero status and creates or changes no file.',
    ['inputs', 'histories'], 'every set of input files, readable or not, and every argument list',
    'No test runs the command.',
    ['src/util/oifits-merge.c', L + 'oimerge.c', L + 'oifile.c'],
    [('command', 'src/util/oifits-merge.c')],
    [('cli', 1, {'tool': 'merge'}), ('model', 0, {'name': 'cli', 'every': (60, 40)})], r'cli\.(merge|text)', (720, 3000), ('cli',), mc=('cli',))

add('C25', 'The filter command applies exactly the filter its options describe',
    'The filter command writes exactly the part of the input that the filter given by its options accepts and prints that filter and summaries of input and output. On unreadable input or wrong usage it exits with a non-zero '
    'status and creates or changes no file.',
    ['inputs', 'configurations'], 'every input file and every combination, order and repetition of options',
    'No test runs the command.',
    ['src/util/oifits-filter.c', L + 'oifilter.c', L + 'oifile.c'],
    [('command', 'src/util/oifits-filter.c'), ('option parsing', L + 'oifilter.c get_oi_filter_option_group, get_user_oi_filter')],
    [('cli', 1, {'tool': 'filter'}), ('model', 0, {'name': 'cli', 'every': (60, 40)})], r'cli\.(filter|text)', (720, 3000), ('cli',), mc=('cli',))

add('C26', 'The upgrade and check commands report and convert faithfully',
    'The upgrade command converts a version 1 file to a version 2 file with the same data and the given header values, and refuses files that are already version 2 or have no array table. '
    'The check command prints a summary, one report for each rule that is breached, and says that all checks passed exactly when none is; wrong usage or unreadable input gives a non-zero exit status.',
    ['inputs'], 'every input file and argument list',
    'No test runs these commands.',
    ['src/util/oifits-upgrade.c', 'src/util/oifits-check.c', L + 'oicheck.c'],
    [('commands', 'src/util/oifits-upgrade.c, src/util/oifits-check.c')],
    [('cli', 1, {'tool': 'upgrade'}), ('cli', 1, {'tool': 'check'}), ('model', 0, {'name': 'cli', 'every': (60, 40)})],
    r'cli\.(upgrade|check|text)', (780, 3000), ('cli',), mc=('cli',))

add('C27', 'Filter options are parsed into the filter they describe',
    'Parsing command-line filter options yields the default filter with exactly the given criteria replaced, the last occurrence of an option winning, and leaves other arguments in place; an invalid option or value is refused. '
    'Parsing again starts afresh from the default.',
    ['inputs', 'histories'], 'every list of options and values and every sequence of parses in one program',
    'The tests parse one or two options at a time.',
    [L + 'oifilter.c'],
    [('option table', L + 'oifilter.c get_oi_filter_option_group'), ('transfer to filter', L + 'oifilter.c get_user_oi_filter')],
    [('opt', 1, {}), ('model', 0, {'name': 'opt', 'every': (20, 2)})], r'optparse', (1200, 6000), ('optparse',), mc=('opt',))

add('C28', 'Printed summaries describe the dataset and filter truthfully',
    'The summary of a dataset states its version, header values, the number of tables of each kind, and for each table its names, date and dimensions as they are in the dataset. '
    'The printed form of a filter states each of its criteria.',
    ['inputs', 'histories'], 'every dataset and filter, and every order of producing summaries',
    'The tests print summaries without looking at them.',
    [L + 'oifile.c', L + 'oifilter.c'],
    [('dataset summary', L + 'oifile.c format_oi_fits_summary'), ('filter description', L + 'oifilter.c format_oi_filter')],
    [('text', 2, {}), ('query', 1, {})], r'summary|fmtfilter', (1080, 5000), ('summary', 'fmtfilter'), mc=('sys',))

add('C29', 'Any sequence of operations behaves as its parts do',
    'In any sequence of building, reading, writing, filtering, merging, upgrading, checking, looking up, counting, iterating and releasing datasets, each operation gives the result it would give on its own for its present inputs, '
    'with no influence of earlier operations on other datasets.',
    ['histories'], 'every finite history of operations over a pool of datasets and files',
    'Every test performs one short fixed sequence of operations.',
    [L + 'oifile.c', L + 'oifilter.c', L + 'oimerge.c', L + 'oiiter.c', L + 'oicheck.c'],
    [('shared static state: text buffer, parsed user filter', L + 'oifile.c pGStr; ' + L + 'oifilter.c'), ('hash tables per dataset', L + 'oifile.c')],
    [('history', 3, {}), ('reuse', 1, {}), ('sim', 1, {}), ('model', 0, {'name': 'sys', 'every': (12, 2)})], r'(?!skip|status\.tail).*', (720, 4000),
    ('build', 'init', 'read', 'write', 'filter', 'merge', 'upgrade', 'check', 'lookup', 'query', 'iterinit', 'iternext', 'free', 'dump', 'summary', 'exit', 'sethdr', 'dup'),
    mc=('sys',))

add('C30', 'No operation on consistent data touches memory it does not own',
    'No sequence of reading, writing, filtering, merging, iterating, checking, summarising and releasing consistent datasets reads or writes outside allocated storage, uses released storage, releases storage twice, or aborts the program.',
    ['histories', 'inputs'], 'every history of operations on consistent datasets and on valid or damaged files',
    'The tests run without memory checking on a few fixed files.',
    [L + 'oifile.c', L + 'oifilter.c', L + 'oimerge.c', L + 'oiiter.c', L + 'read_fits.c', L + 'free_fits.c', L + 'oicheck.c'],
    [('allocation sizes', L + 'alloc_fits.c, ' + L + 'oifilter.c'), ('release', L + 'free_fits.c')],
    [('copy', 1, {}), ('merge', 2, {}), ('filter', 2, {}), ('iter', 1, {}), ('foreign', 2, {}), ('io', 1, {}), ('check', 1, {}), ('history', 1, {}), ('text', 1, {}), ('lookup', 1, {})],
    r'(?!skip)crash\..*', (1080, 4000), ('*',), asan=True, mc=('sys',))

add('C31', 'Releasing datasets returns all their storage',
    'After all datasets and tables obtained by building, reading, duplicating, filtering and merging have been released, none of their storage remains in use. '
    'Repeating any sequence of successful operations, releasing every result, never makes memory use grow.',
    ['histories', 'inputs'], 'every sequence of successful operations on consistent datasets and every order of releasing them',
    'The tests do not measure memory use, and a leak changes no result.',
    [L + 'free_fits.c', L + 'oifile.c', L + 'oifilter.c', L + 'oimerge.c', L + 'read_fits.c', L + 'oiiter.c'],
    [('release of tables', L + 'free_fits.c'), ('release of datasets', L + 'oifile.c free_oi_fits'), ('temporary storage of operations', L + 'oifilter.c, ' + L + 'oimerge.c, ' + L + 'oicheck.c')],
    [('storage', 1, {}), ('model', 0, {'name': 'sys', 'every': (12, 2)})], r'leak', (720, 4000), ('free',), mc=('storage',))

add('C32', 'Suspect content is reported when read or written, and only that',
    'Reading a table or a whole file prints a warning naming the HDU for each HDU read whose recorded data or HDU checksum does not match its content, a warning for each table with a later revision than supported, '
    'and a notice for each unusable table left out, and none of these otherwise; files written by this library cause none. The content is delivered all the same. '
    'Writing likewise warns of each table whose revision number in memory is not the one written, and of each visibility, squared visibility and triple product table without array name, and of nothing else.',
    ['inputs', 'fault_sequences'], 'every file, with every combination of right, wrong and missing checksums, revisions and damage; every dataset written',
    'No test reads a file with a wrong checksum, and none looks at what is printed.',
    [L + 'read_fits.c', L + 'oifile.c'],
    [('checksum verification', L + 'read_fits.c verify_chksum'), ('revision warnings', L + 'read_fits.c'), ('skipping notices', L + 'oifile.c read_oi_fits'),
     ('warnings when writing', L + 'write_fits.c')],
    [('foreign', 4, {'suspect': True, 'hurt': False}), ('foreign', 2, {'suspect': True, 'hurt': True}), ('io', 2, {}), ('table', 2, {}), ('v1', 1, {})],
    r'warn|read|tread', (960, 4000), ('read', 'write', 'tnext', 'tname', 'twrite'), mc=('io',))

add('C33', 'The demonstration program writes exactly the OIFITS file its text describes',
    'For every text input that describes one table of each kind, oitable-demo writes a valid OIFITS version 2 file holding exactly the values of the text (omitted optional items get their documented defaults), '
    'never replacing a file that exists; for every OIFITS file it is then given it lists, for each data table, the array, instrument and correlation table names the table refers to, type by type in file order, '
    'wherever in the file the tables lie, stopping with an error at the first table it cannot read.',
    ['inputs'], 'every text description expressible in the format, every file given for listing',
    'The test compares nothing: it runs the program once on one text file.',
    [L + 'oitable-demo.c'],
    [('text to file', L + 'oitable-demo.c demo_write'), ('listing', L + 'oitable-demo.c demo_read')],
    [('demo', 1, {}), ('model', 0, {'name': 'demo', 'every': (20, 120)})], r'demo(\.list)?', (960, 6000), ('demo',), mc=('demo',), asan=True)
