TRUST = ' Trusts the simulated disk (POSIX semantics of the calls used) and the reference model in sim/uvsim.py; a seeded sample, not a proof.'

prop('C01', 'A data set reads back exactly what was written to it',
     'Every record written to a data set is read back after it was closed, in order and none added, with the same uvw, time, antenna pair, channel values and mask: single precision bit for bit (NaN as NaN), scaled 16-bit data to within one part in 32767 of the largest number of the record. This holds for any number of channels, any mask pattern, whichever form the data and mask are given in (masked, plain, strided, separate flags) and whichever way they are read (masked or raw, one by one, in a loop, after a rewind). It does not depend on what else the process has open or in which order the calls on different handles come.',
     ['inputs', 'histories', 'schedules'], 'all record contents and shapes, all sequences of open/write/close/read/rewind calls on any number of handles in any interleaving',
     'the tests write one or two records of a few channels through one handle; block boundaries, mask run packing, interleaved handles and strided input are never reached',
     [UVIO, HIO, MASK, WRAP, PYM], [('record writing', UVIO + ': uvwrite_c, uvputvr_c'), ('record reading', UVIO + ': uvscan_c, uvread_c'), ('16 kB block buffers', HIO + ': hio_c, hcheckbuf_c'), ('mask run packing', MASK + ': mkwrite_c, mkread_c'), ('numpy conversion', WRAP + ': UVObject_read, UVObject_write')],
     [('io buffers', 'the part of a file held in memory and whether it is modified', HIO), ('mask words', '31 flags per integer', MASK)], ['UV.write', 'UV.read', 'UV.all', 'UV.rewind'],
     claim=('exploration', 'Seeded search over thousands of interleaved multi-session histories compared record by record with a list model, on the real C and Python code.' + TRUST, 'interleaved histories in lock step with a reference model'))

prop('C02', 'Variables have, at each record, the value they had when it was written',
     'After each record read, every variable reads as the value last assigned to it before that record was written, whatever its type (text, 16- and 32-bit integer, single, double, complex) and length, through all earlier sessions of the data set. A writer reads back its own assignments at once. Variables first assigned in mid-stream are absent before and present after.',
     ['inputs', 'histories', 'schedules'], 'all assignment histories: types, lengths that change, repeated values, late first assignments, any number of variables and sessions',
     'the tests assign a handful of variables once; tracking of changes over records and sessions is not exercised',
     [UVIO, WRAP, PYM], [('variable values in the stream', UVIO + ': uvputvr_c, uvscan_c, uvgetvr_c'), ('variable lookup by hash', UVIO + ': uv_locvar'), ('typed access', WRAP + ': UVObject_rdvr, UVObject_wrvr'), ('vartable', PYM + ': _gen_vartable')],
     [('variable', 'type, length and current value', UVIO)], ['UV.__getitem__', 'UV.__setitem__', 'UV.vars', 'UV.vartable'],
     claim=('exploration', 'As C01, with workloads made of variable changes; every variable is compared after every record.' + TRUST, 'interleaved histories in lock step with a reference model'))

prop('C03', 'Header items persist until they are next set, and history is never lost',
     'A header item (text, integer, double, complex or spectral setup, of any size) reads back as the value last set, at once through the same handle and in every later session, until it is set again. This holds for any number of sessions that write, append or only edit the header. Items that were never set are absent, and listing the items names exactly those that are set.',
     ['inputs', 'histories', 'schedules'], 'all sequences of sets and gets of all items with values of any length, across sessions and handles',
     'the tests set three items once; the boundary between items kept inside the header file and items with a file of their own is not crossed by rewriting',
     [HIO, 'aipy/_miriad/mir/headio.c', WRAP, PYM], [('small items cached in one header file', HIO + ': hcache_read_c, hflush_c'), ('large items in files', HIO + ': hio_c, hopenfile_c'), ('item codecs', PYM + ': _rdhd, _wrhd, _rdhd_special, _wrhd_special')],
     [('item', 'size, content, whether cached or in a file', HIO)], ['UV.__getitem__', 'UV.__setitem__', 'UV.items'],
     claim=('exploration', 'As C01, with header-item workloads including rewriting with larger and smaller values and header-only sessions.' + TRUST, 'interleaved histories in lock step with a reference model'))

prop('C04', 'Appending is the same as having written everything in one go',
     'After any number of append sessions a data set reads as the concatenation of the records of all its sessions, each with its own data, mask and variables, including values carried over from earlier sessions. Appending changes nothing that was there before. A session that appends nothing leaves the data set as it was.',
     ['histories', 'inputs'], 'all sequences of create and append sessions, with different channel counts, variables and items per session',
     'one test appends once to one file',
     [UVIO, HIO, MASK, PYM], [('reopening for append', UVIO + ': uvopen_c'), ('continuing the mask file', MASK + ': mkopen_c'), ('positions', HIO + ': haccess_c')],
     [('visno, offset', 'where the next record and its flags go', UVIO)], ['UV(status="append")', 'UV.read'],
     claim=('exploration', 'As C01, with up to twelve sessions per data set.' + TRUST, 'multi-session histories in lock step with a reference model'))

prop('C05', 'A crash while a data set is written leaves a correct beginning of it, or none',
     'If the writing process dies at any moment of creating a data set, then a later reader either is told by an exception that the data set cannot be opened or read on, or sees a prefix of the records that were written, each exactly as it was written. It never sees altered, invented or reordered data, masks, variables or header items, and it does not crash or hang. Other data sets which were complete at the time are not affected.',
     ['crash_points', 'histories'], 'all points between and within the disk writes of every run, for all writing histories',
     'no test stops a writer; only files which were closed are ever read',
     [UVIO, HIO, MASK, DIO], [('order in which the files are brought up to date', HIO + ': hclose_c, hflush_c'), ('vartable and header written last', UVIO + ': uvclose_c'), ('end of data recognised', UVIO + ': uvscan_c')],
     [('disk image', 'the files as they stand after a prefix of the write calls', DIO)], ['UV()', 'UV.read'],
     claim=('fault_enumeration', 'For each seeded history the process is crashed after every disk call and inside every write (several tear points), up to 150 points per run, and the image is read by the real code. Process crash model: completed system calls survive; loss of completed writes (power failure) is not modelled because the code never syncs.' + TRUST, 'crash at every disk call, with torn writes, then recovery'))

prop('C06', 'A crash while appending does not harm what was there before',
     'If the process dies at any moment of an append or header-editing session, every record and variable of the sessions closed before is still read back exactly, followed by at most a prefix of the new records, each exactly as written; every header item has its old value or one that was being written. The data set can be opened again and appended to, and then holds the old records followed by the new ones.',
     ['crash_points', 'histories'], 'all points between and within the disk writes of all append and header-editing sessions',
     'no test stops a writer or appends to a damaged data set',
     [UVIO, HIO, MASK, DIO], [('items replaced as a whole', HIO + ': hreplace_c'), ('old blocks rewritten in place', HIO + ': hio_c'), ('flags reopened for append', MASK + ': mkopen_c')],
     [('disk image', 'the files as they stand after a prefix of the write calls', DIO)], ['UV()', 'UV.read', 'UV(status="append")'],
     claim=('fault_enumeration', 'As C05; in addition the image is appended to and read again after each crash.' + TRUST, 'crash at every disk call, with torn writes, then recovery and resumption'))

prop('C07', 'A failed disk write is reported, and nothing that was acknowledged is lost',
     'When a disk call fails, is cut short or the disk is full while data sets are created, appended to or edited, some call raises an exception before or when the handle is closed; if none did, everything that was written is read back. Records of earlier sessions and of other data sets stay intact, the item being replaced keeps its old value, and no reader is ever given anything that was not written. Once the disk works again the failed call, and every other call, can be made again in the same process.',
     ['fault_sequences', 'histories'], 'all sequences of failing, short and out-of-space writes, opens, seeks, closes, renames and directory creations, at any call of any history, followed by retries',
     'no test makes a system call fail',
     [HIO, DIO, UVIO, MASK, 'aipy/_miriad/mir/bug.c', WRAP], [('error propagation', HIO + ': hio_c, hdaccess_c'), ('errors to exceptions', 'aipy/_miriad/mir/bug.c, ' + WRAP), ('release of handles on error', HIO + ': hdiscard_c')],
     [('iostat', 'the error of the last low-level call', DIO)], ['UV()', 'UV.write', 'UV.__setitem__', 'closing a handle'],
     claim=('exploration', 'Faults are placed by a first fault-free run at disk calls that do happen (several placements per workload); every call and the final state are compared with a model that knows which calls failed.' + TRUST, 'seeded faults at disk calls, retries, final audit'))

prop('C08', 'A failed disk read is an error, never wrong data, and can be retried',
     'When a disk call fails or returns less than asked for while a data set is opened or read, the call either raises an exception or gives the right answer; it never returns altered data, masks, variables or items, silently ends early or skips records. After a rewind, or on a new handle, everything is read back as written. Nothing on disk changes.',
     ['fault_sequences', 'histories'], 'all sequences of failing and short reads, opens and seeks at any call of any reading history',
     'no test makes a system call fail',
     [HIO, DIO, UVIO, MASK, WRAP], [('error propagation', HIO + ': hio_c'), ('end of file against error', UVIO + ': uvscan_c'), ('flags', MASK + ': mkread_c')],
     [('iostat', 'the error of the last low-level call', DIO)], ['UV()', 'UV.read', 'UV.all', 'UV.__getitem__'],
     claim=('exploration', 'As C07 with faults on the reading side.' + TRUST, 'seeded faults at disk calls, retries, final audit'))

prop('C09', 'Handles do not disturb one another, and a refused call has no effect',
     'With many data sets open at once for reading, writing and copying, every handle behaves as if it were alone, whatever the order in which calls on different handles come. A call that is refused (unknown variable, wrong type or shape, missing or existing file, bad status, reading what is written) raises an exception and changes nothing on any handle or on disk. Refused calls never end the process.',
     ['schedules', 'histories'], 'all interleavings of calls on up to twelve open data sets, with invalid calls mixed in',
     'the tests have one handle open at a time and make almost no invalid call',
     [UVIO, HIO, 'aipy/_miriad/mir/bug.c', WRAP, PYM], [('tables of open data sets and items', HIO + ': hget_tree, hget_item'), ('one UV structure per handle', UVIO + ': uv_open'), ('errors to exceptions', 'aipy/_miriad/mir/bug.c')],
     [('open tables', 'static tables shared by all handles', HIO)], ['all methods of UV'],
     claim=('exploration', 'The scheduler interleaves up to twelve actors call by call, with refused calls among them, in lock step with per-handle models.' + TRUST, 'seeded interleavings of many handles and refused calls'))

prop('C10', 'Descriptors, data-set slots and memory are given back, whatever went wrong',
     'When every handle is closed no file descriptor is left open, and as many data sets can be opened at a time as at first; a call repeated leaves no memory behind. This holds after any history of successful, refused and failing calls, including ones repeated a thousand times, and whichever disk calls failed on the way.',
     ['fault_sequences', 'histories'], 'all histories with failing disk calls and refused calls, repeated',
     'no test makes calls fail or counts resources',
     [HIO, DIO, UVIO, WRAP], [('release on error paths', HIO + ': hdiscard_c, hrelease_item_c'), ('destructor', WRAP + ': UVObject_dealloc')],
     [('open tables', 'slots for data sets and items', HIO)], ['UV()', 'closing a handle'],
     claim=('exploration', 'Histories with faults and up to 1100 repetitions of a failing call; at the end the descriptors of the simulated disk and the number of simultaneously open data sets are counted.' + TRUST, 'soak runs with seeded faults and resource conservation'))

prop('C11', 'A selection returns exactly the records that satisfy it',
     'With selections by antennas, auto-correlation, polarisation, time, record number, increment, uv distance, uv range in wavelengths, on/off state, right ascension, declination, their offsets, LST, hour angle, elevation, pulsar bin, pointing error, shadowing or sky frequency, included or excluded and combined with "and" and "or", reading returns exactly the matching records, in order, each with the data and the values of all variables it was written with; a spectral window returns the channels of it alone, an amplitude range flags what lies outside. Decimation returns the chosen integrations of them. Selections can be added, cleared and applied again after a rewind.',
     ['inputs', 'histories'], 'all combinations of selection clauses over all data sets, read from any position, cleared and repeated',
     'two tests select by one antenna pair and one polarisation on one file',
     [UVIO, WRAP, PYM], [('clause evaluation', UVIO + ': uvread_select'), ('clause construction', UVIO + ': uvselect_c'), ('decimation', WRAP + ': uvread_c wrapper'), ('Python interface', PYM + ': select')],
     [('selection list', 'clauses, each a set of tests', UVIO)], ['UV.select', 'UV.read', 'UV.rewind'],
     claim=('exploration', 'Seeded selections against a reference filter over the written records.' + TRUST, 'selection histories in lock step with a reference model'))

prop('C12', 'A copy holds the records, variables and items of its source, changed as asked',
     'Copying a data set with a callback calls it once per record of the source, in order, with that record and its variables current, and the copy holds what the callback returned, records it dropped being left out, with all variables as in the source at that record. Overridden variables and items have the given value throughout, excluded ones are absent unless set afterwards, and the history is that of the source followed by the text to append. The source is unchanged, and the same handle can be copied again with other choices.',
     ['inputs', 'histories', 'schedules'], 'all sources, callbacks, override and exclude sets, positions in the source, and further writing to the copy',
     'the tests copy one small file with one override',
     [PYM, UVIO, WRAP], [('cloning of header and variables', PYM + ': init_from_uv'), ('copy loop', PYM + ': pipe'), ('tracked variables', UVIO + ': uvcopyvr_c, uvtrack_c')],
     [('tracked variables', 'flag per variable: copied when updated', UVIO)], ['UV.init_from_uv', 'UV.pipe', 'UV.copyvr'],
     claim=('exploration', 'Seeded clones of clones with drop, scale, flag, relabel and channel callbacks, in lock step with a model of the copied variables.' + TRUST, 'copying histories in lock step with a reference model'))

prop('C14', 'Data sets are in the MIRIAD format: other programs and aipy read each other',
     'Every data set that was closed can be decoded from its files by the published description of the format alone, and so decoded holds exactly the records, masks, variables and header items that were written, whatever sessions, appends, copies and header edits made it. A data set made by another program to that description, using any freedom it leaves (order and repetition of variables, either baseline encoding, text with or without a final NUL, items in the header or in files, flags absent, either width of the lengths), is read, selected from, copied and appended to like one of aipy\'s own.',
     ['inputs', 'histories', 'fault_sequences'], 'all data sets produced by any history of sessions, and all data sets allowed by the format',
     'the tests read files which the same code wrote, so that an error made in writing and undone in reading goes unnoticed, and read one sample file made elsewhere',
     [UVIO, HIO, 'aipy/_miriad/mir/headio.c', 'aipy/_miriad/mir/pack.c', MASK], [('byte order and packing', 'aipy/_miriad/mir/pack.c'), ('stream of variables', UVIO + ': uvputvr_c, uvscan_c'), ('items with a type tag', 'aipy/_miriad/mir/headio.c'), ('header file', HIO + ': hcache_read_c, hflush_c'), ('baseline numbers', UVIO + ': uvbasant_c, ' + WRAP)],
     [('files of a data set', 'visdata, flags, vartable, header, one per large item', HIO)], ['UV()', 'UV.write', 'UV.read'],
     claim=('exploration', 'The bytes on the simulated disk are decoded by sim/mirfmt.py, written from the format description, and compared with the model; data sets encoded by it with seeded freedoms take part in the histories. A third of the runs is fault-free, in the others disk writes fail and are retried.' + TRUST, 'independent codec as the oracle over simulated histories with disk faults'))

prop('C15', 'A damaged data set is an error or is read as far as it goes, nothing worse',
     'Whatever bytes the files of a data set come to hold - flipped, cut, lost, moved or swapped, before it is opened or while it is - every call on it returns or raises an exception: the process does not crash or hang, no memory is read or written beyond the buffers, and no answer or file depends on what was in memory before. Records whose stream and flags lie before the first damaged byte are still read exactly as written, other data sets are unharmed, reading changes nothing on disk, and nothing stays open when the handles are gone.',
     ['inputs', 'fault_sequences', 'histories'], 'all damages to any file of any data set, at any moment of any sequence of opens, reads, selections, copies, appends and edits',
     'the tests read intact data sets only',
     [UVIO, HIO, 'aipy/_miriad/mir/headio.c', MASK, WRAP, PYM], [('stream of variables', UVIO + ': uv_scan'), ('vartable', UVIO + ': uv_vartable_in'), ('header file', HIO + ': hcache_read_c, hopen_c'), ('flags', MASK + ': mkread_c'), ('windows and antennas used as indices', UVIO + ': uvread_line, uvread_select, uv_getskyfreq')],
     [('variable', 'type, length, buffer and whether it was ever given a value', UVIO), ('block buffer', 'the part of a file held in memory', HIO)], ['UV()', 'UV.read', 'UV.all', 'UV.select', 'UV.init_from_uv', 'UV.pipe', 'read_files'],
     claim=('exploration', 'Each seeded run is executed twice with other fillings of fresh and freed memory: answers and files must be equal, and agree with the truth before the damage. Out-of-bounds accesses show as a difference, a crash or a smashed heap; one which does none of these goes unseen.' + TRUST, 'seeded damage to files over simulated histories, differential execution under two memory fillings'))

AATRUST = ' Trusts pyephem for positions of bodies and sidereal time, healpy and scipy for pixel weights and J1, and the reference model in sim/aasim.py; a seeded sample, not a proof.'
PHS, AMP, FIT, POL = 'aipy/phs.py', 'aipy/amp.py', 'aipy/fit.py', 'aipy/pol.py'

prop('C16', 'What an antenna array predicts depends on nothing but its present state',
     'Baselines, uvw coordinates, phases, gains, beam responses, source positions and fluxes, and simulated visibilities are those which follow from the time, channels, polarization, pointings and parameters that are set at present, whichever times, channels, sources and parameters came before and in whichever order, and whether or not an earlier call failed. Data phased to a source and back are unchanged. A source below the horizon, or a simulation from a sky cached at another time, is refused and never answered from old values.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'], 'all histories of clock jumps, channel and polarization selections, parameter changes, source computations and observations on any number of arrays sharing beams and sources, with failing allocations',
     'tests set one time and one source and compare a few numbers; stale caches, shared coefficient objects and interrupted updates need histories',
     [PHS, AMP, FIT, POL, 'aipy/coord.py', 'aipy/healpix.py', 'aipy/cal.py'],
     [('time and its caches', PHS + ': ArrayLocation.set_ephemtime, AntennaArray._update'), ('phase', PHS + ': AntennaArray.gen_phs, gen_uvw, get_baseline'), ('source positions', PHS + ': RadioFixedBody.compute'), ('simulation cache', AMP + ': AntennaArray.sim_cache, sim, bm_response'), ('polarization', POL + ': AntennaArray.set_active_pol, Antenna.passband')],
     [('_eq2zen, _eq2now, epoch', 'rotations for the time set last', PHS), ('_cache', 'sources of the last sim_cache, dropped when time is set', AMP), ('_gain, _phsoff', 'gain and phase for the active channels', AMP)],
     ['AntennaArray.gen_phs', 'AntennaArray.sim', 'AntennaArray.get_baseline', 'SrcCatalog.compute', 'RadioBody.get_crds', 'RadioBody.get_jys'],
     claim=('exploration', 'Seeded observing sessions under a virtual clock which jumps and runs backwards, with MemoryError injected at numpy calls and the failed call repeated; every observation against an independent formula for the present state.' + AATRUST, 'simulated observing sessions with a virtual clock and allocation faults, against a memoryless reference model'))

prop('C17', 'Saved parameters are what they were, and restore the instrument exactly',
     'get_params names every fitable parameter that set_params takes, with its present value, and restoring what it returned - directly or flattened to a list and reconstructed, to the same or an alike array or catalogue - brings back the same behaviour, whatever was set in between. Each antenna and source has its own parameters: setting some changes exactly those, and nothing else changes them, including what the caller does to the values it passed or got. Values passed in are never changed.',
     ['histories', 'inputs', 'fault_sequences'], 'all histories of setting, saving and restoring subsets of parameters over all kinds of beams, antennas and sources, with coefficient objects shared by the caller, and failing allocations',
     'one test restores a dictionary of numbers; aliasing between antennas, snapshots and callers needs histories',
     [FIT, POL, PHS, AMP], [('names and values', FIT + ': Antenna.get_params, set_params'), ('polarized names', POL + ': Antenna.get_params, set_params'), ('flattening', FIT + ': flatten_prms, reconstruct_prms'), ('derived values', AMP + ': Antenna.update, BeamAlm.update')],
     [('pos, _phsoff, bp_r, bp_i, amp', 'parameters of an antenna', PHS), ('alm, hmap', 'coefficients of a beam and the map made of them', AMP)],
     ['get_params', 'set_params', 'flatten_prms', 'reconstruct_prms', 'AntennaArray.sim'],
     claim=('exploration', 'As C16, with sessions made of parameter changes, snapshots and restores; parameters and all predictions are compared, and values handed over are scribbled on afterwards.' + AATRUST, 'simulated fitting sessions with allocation faults, against a reference model of the parameters'))

prop('C18', 'Deconvolution accounts for every bit of the image, stops, and can go on',
     'What clean, lsq, maxent and anneal return satisfies image = model * kernel + residual, with the score of that residual, in every supported type, shape and memory layout, whether begun afresh, from a given model, or from where another call stopped; clean, with or without stopping at divergence, and lsq take the documented steps and no other; clean touches only the area it may, keeps the best it found, and always returns; annealing stays in its bounds and never goes back. Arguments are never changed, no memory is left behind, the same call gives the same answer whatever was called before, and a call which ran out of memory says so and can be repeated.',
     ['inputs', 'histories', 'fault_sequences'], 'all sequences of deconvolutions of images with a kernel whose peak is at the origin, resumed from each other in any order, with any settings, a seeded random generator and failing allocations',
     'tests clean two images with one kernel and compare a few numbers; stopping, divergence, resuming and lost allocations depend on the numbers met on the way',
     ['aipy/deconv.py', 'aipy/_deconv/deconv.cpp'], [('the clean loop, one per type and rank', 'aipy/_deconv/deconv.cpp: Clean'), ('residual of a given model', 'aipy/deconv.py: clean, lsq, maxent'), ('acceptance of random steps', 'aipy/deconv.py: anneal')],
     [('best_mdl, best_res', 'the best model met when not stopping at divergence', 'aipy/_deconv/deconv.cpp')], ['deconv.clean', 'deconv.lsq', 'deconv.maxent', 'deconv.maxent_findvar', 'deconv.anneal', 'deconv.recenter'],
     claim=('exploration', 'Seeded sessions of deconvolutions with MemoryError injected at numpy calls and malloc made to fail in the extension; each result against the identities it must satisfy, clean against a direct rendering of its algorithm (skipped where rounding decides a step).  Trusts numpy fft; a seeded sample, not a proof.', 'simulated sessions with a seeded random generator and allocation faults, against invariants and a reference implementation'))

prop('C13', 'Reading a set of files gives exactly the visibilities that were asked for',
     'read_files returns, for every antenna pair and polarization selected by the antenna and polarization strings in any of the files, in the order of files and records, exactly the records written for it, with their flags, and the times and sidereal times of the integrations they came from, each once, and the frequency axis of the data. Decimation keeps the chosen integrations of each file. A file which cannot be read is an error and never a shorter answer, and reading changes no file.',
     ['inputs', 'histories', 'fault_sequences'], 'all sets of files from any history of observing sessions with gaps, all antenna strings (lists, products, single antennas, auto, cross, polarized pairs, exclusions), polarization strings and decimations, with failing disk calls',
     'the tests parse antenna strings and read no set of files; gaps, repeated times, several files and selections combined are not exercised',
     [PYM, 'aipy/scripting.py', UVIO], [('grouping by baseline and polarization', PYM + ': read_files'), ('antenna strings', 'aipy/scripting.py: parse_ants, uv_selector'), ('selection', UVIO + ': uvselect_c, uvread_select')],
     [('times, data, flags', 'per key, in order', PYM)], ['miriad.read_files', 'scripting.uv_selector'],
     claim=('exploration', 'Seeded observing sessions written through the simulated disk, read back as sets of files under antenna strings generated from clauses, against a reference filter over the written records; faults are placed at the disk calls of the reading.' + TRUST, 'simulated observing sessions with disk faults, against a reference filter'))

IMTRUST = ' Trusts numpy, astropy and healpy, and the reference model in sim/%s; a seeded sample, not a proof.'
prop('C19', 'An image holds the sum of exactly the visibilities that were gridded into it',
     'The uv matrix and the weights of an image are, to rounding, the sums over all visibilities put so far - each at its own cell, wrapped at the edges, multiplied by its own weight, with its Hermitian mate where asked for, and its w projection - whatever the batches, order, types and memory layouts they came in and however often they were looked at in between; and images, beams and coordinates made of them follow from these sums and from the pointing alone. A call that is refused or runs out of memory in Img.put leaves the image as it was, and no call changes its arguments. An image written to a FITS file is read back with its axes and coordinates, from a disk that is full or a file cut short it is an error, and one made with the header of another has what was given for it, and otherwise what the first had.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of putting, refused puts, looking up, imaging and saving, over several images of any size and resolution, with failing allocations, full disks and torn files',
     'tests grid one batch and look at a few cells; batches, layouts, repeated looking and failures need histories',
     ['aipy/img.py', 'aipy/_dsp/dsp.c', 'aipy/_dsp/grid/grid.c'], [('gridding with weights', 'aipy/_dsp/grid/grid.c: grid1D_c, grid2D_c, degrid2D_c'), ('batches and sorting by w', 'aipy/img.py: Img.put, ImgW.put'), ('Hermitian mates', 'aipy/img.py: Img.append_hermitian'), ('images', 'aipy/img.py: Img.image, bm_image, get_LM, recenter'), ('files', 'aipy/img.py: to_fits, from_fits, from_fits_to_fits')],
     [('uv, bm', 'sums of weighted visibilities and of weights', 'aipy/img.py')], ['Img.put', 'Img.get', 'Img.image', 'Img.bm_image', 'img.to_fits', 'img.from_fits', '_dsp.grid2D_c'],
     claim=('exploration', 'Seeded imaging sessions with MemoryError injected at numpy calls, refused calls, and FITS files written under a seeded limit of file size and cut short; matrices are compared with sums in double precision after every call.' + IMTRUST % 'imgsim.py', 'simulated imaging sessions with allocation and disk faults, against a summing reference model'))

prop('C20', 'A sky map is the weighted average of what was put in it, however it is held',
     'At every point a weighted map gives the average of the samples added there, weighted as given, and their weight, with all its spectral indices - through adding and putting single or repeated pixels in any order, changes of ordering scheme, interpolation and number of indices, resampling into other maps, resetting of weights, copying, pickling, and harmonic coefficients to map and back. Signal, weights and indices always have the same geometry. A map written to a FITS file reads back the same; a full disk or a file cut short is an error, a call that fails for lack of memory can be repeated, and no call changes its arguments.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of operations over several maps of any size, scheme, type and number of indices, with failing allocations, full disks and torn files',
     'tests fill a map once and look at a few pixels; conversions between representations and their composition need histories',
     ['aipy/map.py', 'aipy/healpix.py', 'aipy/_alm.cpp', 'aipy/utils/utils.cpp'], [('sums per pixel', 'aipy/utils/utils.cpp: add2array; aipy/map.py: Map.add, Map.put'), ('averages', 'aipy/map.py: Map.__getitem__, reset_wgt'), ('ordering and resampling', 'aipy/healpix.py: change_scheme, from_hpm, __getitem__, __setitem__'), ('harmonics', 'aipy/healpix.py: from_alm, to_alm'), ('files', 'aipy/map.py: to_fits, from_fits')],
     [('map, wgt, ind', 'weighted sum, sum of weights and weighted indices, per pixel', 'aipy/map.py')], ['Map.add', 'Map.put', 'Map.get', 'Map.__getitem__', 'Map.from_map', 'Map.to_fits', 'HealpixMap.from_alm'],
     claim=('exploration', 'Seeded sessions over several maps with MemoryError injected at numpy calls and faults on FITS files; after every call all maps are compared with a model in RING order.' + IMTRUST % 'mapsim.py', 'simulated map sessions with allocation and disk faults, against a reference model'))
prop('C21', 'Source catalogues give exactly the sources their files list',
     'A request for sources from any catalogues gives every source listed there under the names asked for or above the flux cut at that frequency, and no other, with the position, flux, frequency, index and extra columns of its file, own sources added and later entries of a name winning - whatever was asked before and whoever asks, also through an array file. A file which is missing or cannot be read is an error every time until it can be, and then its catalogue is complete.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of requests over sixteen catalogues with any well-formed files, files missing for a while, and failing opens, reads and allocations',
     'tests look up one source of one catalogue; catalogues are loaded once and shared, so what counts is the history of requests and failures',
     ['aipy/src.py', 'aipy/_src/*.py', 'aipy/cal.py', 'aipy/fit.py'], [('loading once', 'aipy/_src/*.py: get_srcs'), ('file formats', 'aipy/_src/*.py: fromfile'), ('merging', 'aipy/src.py: get_catalog; aipy/cal.py: get_catalog; aipy/fit.py: SrcCatalog.add_srcs')],
     [('_vlsscat and the like', 'None until a file was read completely, then every source of it', 'aipy/_src/*.py')], ['src.get_catalog', 'cal.get_catalog', 'get_srcs', 'fromfile', 'HelmboldtCatalog.get_metadata', 'CulgooraCatalog.get_metadata'],
     claim=('exploration', 'Seeded sequences of requests over generated catalogue files, some missing until later, with failing opens, reads and numpy calls; every answer against the table the files were made from.' + IMTRUST % 'catsim.py', 'simulated catalogue requests with file and allocation faults, against the table behind the files'))

prop('C22', 'Running out of memory is an error, and nothing else is lost by it',
     'Whichever request for memory is refused while data sets are made, appended to, read, selected from, copied or edited - by the library or for the arrays of an answer - the call raises an exception and the process goes on. The data set then has exactly what was acknowledged, the other data sets are untouched, the same call made again when there is memory does what it would have done, and no memory, descriptor or slot is left behind however often it fails. An append, a value or a read which did not get its memory is never taken for done, and what was not written does not count in what the data set says of itself.',
     ['fault_sequences', 'histories'], 'every request for memory of every call of any history of sessions on any number of handles, once or from then on, alone or with a failing disk',
     'allocations do not fail while tests run, and the lines which deal with it are executed by none of them',
     [UVIO, HIO, DIO, MASK, WRAP, PYM], [('variables, selections, flags', UVIO + ': uv_memory'), ('items and their buffers', HIO + ': hcreate_item_c, hcreate_tree_c, haccess_c, hcheckbuf_c, hdir_c'), ('flags of a mask', MASK + ': mkopen_c'), ('arrays of an answer', WRAP + ': UVObject_read, UVObject_rdvr')],
     [('variable', 'its buffer is replaced only when the new one is there', UVIO), ('slot and item tables', 'entered once all memory is there', HIO)], ['UV()', 'UV.write', 'UV.read', 'UV.all', 'UV.select', 'UV.__setitem__', 'UV.__getitem__', 'UV.init_from_uv', 'UV.pipe'],
     claim=('exploration', 'Each workload is run once to count its requests for memory, then with refusals placed at them; compared call by call with the model of the other UV properties, and soaked for what failing calls leave behind. Requests made by the Python interpreter itself and by C++ strings are not refused.' + TRUST, 'failing allocations placed at the requests for memory of simulated histories, in lock step with a reference model'))

PURE = 'A pure function of its arguments: no scheduling, time, I/O, randomness or history for it to depend on, so there is nothing for a simulator to decide; ordinary property-based testing is the right tool.  '
prop('N01', 'Coordinate conversions are each other\'s inverses',
     'Converting between equatorial, ecliptic, galactic, topocentric and angular coordinates and back returns the same direction, for every direction and epoch, and rotation matrices are orthonormal.',
     ['inputs'], 'all directions, epochs and rotation angles', 'tests convert a few points', ['aipy/coord.py'], [('conversions', 'aipy/coord.py: convert, eq2radec, radec2eq, rot_m')], [], ['coord.convert'],
     na=PURE + 'Their use inside the array model is decided by C16.')
prop('N02', 'Command-line descriptions select what they say',
     'Channel ranges, source lists and parameter descriptions parse to exactly the channels, sources and values they name, for every well-formed string.',
     ['inputs'], 'all well-formed strings', 'tests parse a dozen strings', ['aipy/scripting.py'], [('parsers', 'aipy/scripting.py: parse_chans, parse_srcs, parse_prms')], [], ['scripting.parse_chans', 'scripting.parse_prms'],
     na=PURE + 'Antenna strings, which select from data sets, are decided by C13.')
prop('N03', 'Windows, interpolation and outlier detection are the formulas they implement',
     'Window functions are symmetric with their published values for every length, interpolation reproduces its samples, two-dimensional Gaussians have the moments they were made with, and outlier flags depend on the data alone.',
     ['inputs'], 'all lengths and data', 'tests compare a few values', ['aipy/dsp.py', 'aipy/interp.py', 'aipy/rfi.py', 'aipy/twodgauss.py'], [('windows', 'aipy/dsp.py: gen_window'), ('interpolation', 'aipy/interp.py: interpolate')], [], ['dsp.gen_window', 'interp.interpolate'],
     na=PURE)
