prop('C08', 'Timestamps keep the instant exactly through every conversion',
     'For every date from 1972 on, a frame timestamp built from a 196 MHz timetag gives that timetag (less the offset) back exactly and denotes timetag/196e6 seconds since 1970 UTC to better than 1 ns; timestamps built from seconds plus fraction, MJD plus milliseconds, a pulsar triple or another time object denote the instant that was given. '
     'Adding or subtracting seconds and differencing timestamps are consistent with those instants (on days without a leap second), comparisons order timestamps by instant, and the unix, JD, MJD and date-time views agree with each other. '
     'The pulsar triple is always normalised: whole days, 0 to 86399 whole seconds and a fraction in [0,1).',
     ['inputs'], 'all 64-bit timetags and offsets, all seconds/fraction pairs, all MJD/millisecond pairs, all added or subtracted intervals',
     'Tests sample a handful of timetags; carries, rounding at second and day boundaries and leap-second days only show for particular values among 2^60.',
     ['lsl/reader/base.py'],
     [('timestamp constructors and views', 'lsl/reader/base.py:FrameTimestamp')],
     technique=PYT, note='float64 arithmetic by a sound rounding-error model; astropy Time replaced by its documented contract (exact to 5 ps); battery on the real astropy every run')
prop('C09', 'Dates convert to station day/millisecond pairs and back exactly',
     'For every instant from 1900 to 2099 the conversion from a (modified Julian day, milliseconds past midnight) pair to a date-time gives exactly that UTC instant, in any requested time zone, and the conversion of a date-time (naive means UTC, any zone otherwise) gives the day number and the whole milliseconds since midnight UTC. '
     'The two conversions are inverse to each other at millisecond resolution.',
     ['inputs'], 'all days 1900-2099, all milliseconds/microseconds, all UTC offsets',
     'Tests check one date; century rules, month arithmetic and rounding of fractional days only show for particular dates and times.',
     ['lsl/common/mcs.py'], [('mjd/mpm conversions', 'lsl/common/mcs.py:mjdmpm_to_datetime, datetime_to_mjdmpm')],
     technique=PYT, note='float64 by a sound rounding-error model; datetime arithmetic by its documented contract')
prop('C10', 'Station codes for frequency, delay and gain are exact and stable',
     'Every 32-bit tuning word survives conversion to a frequency and back, and each frequency is given the nearest word. '
     'A delay code is the last 1/16-sample step not after the requested delay and fits in 16 bits, a gain code is the 16-bit code of the gain limited to [0,1], decoding a gain code and encoding it again gives the same code for 0..32767, and decoding and re-encoding a delay code stays within one step. '
     'The MCS forms are the byte-swapped station forms.',
     ['inputs'], 'all 2^32 tuning words, all frequencies up to the sample rate, all representable delays and gains, all 16-bit codes',
     'Tests sample fewer than ten values; truncation versus rounding and bit packing fail only at particular codes.',
     ['lsl/common/ndp.py', 'lsl/common/mcs.py'],
     [('encoders and decoders', 'lsl/common/ndp.py:freq_to_word, word_to_freq, delay_to_ndpd, ndpd_to_delay, gain_to_ndpg, ndpg_to_gain'),
      ('byte-swapped forms', 'lsl/common/mcs.py:_two_byte_swap, delay_to_mcsd, mcsd_to_delay, gain_to_mcsg, mcsg_to_gain')],
     technique=PYT, note='float64 by a sound rounding-error model; all 65536 codes also enumerated on the real code')
prop('C15', 'Baseline numbering enumerates every antenna pair once',
     'For any antenna list the baseline list holds every unordered pair exactly once, in lexicographic order of antenna position, with auto-correlations only when asked for (the second antenna list, when given, supplies the second antenna of each pair). '
     'Looking up the pair of a baseline number and the number of a pair (in either order, auto-correlations included) are inverse to each other; a pair that is not there gives -1. '
     'The antenna list passed in is left unchanged.',
     ['inputs'], 'all antenna lists of any length, all baseline numbers, all antenna pairs, all option combinations',
     'Tests use one array size and check list lengths; pair/number mapping must hold for every size and index.',
     ['lsl/correlator/uvutils.py'],
     [('baseline enumeration and lookup', 'lsl/correlator/uvutils.py:get_baselines, baseline_to_antennas, antennas_to_baseline')],
     level='exploration', technique='contracts evaluated exhaustively on the real functions for every list length up to 24 and every index/pair/option (bounded stand-in)',
     note='bounded: list lengths 0..24')
prop('C16', 'Baseline coordinates are the projected separations in wavelengths',
     'For any pair of antenna positions, source direction and frequency the (u,v,w) of a baseline is the vector from the first to the second antenna, projected on the east, north and source directions at the phase centre, times frequency over the speed of light; swapping antennas negates it and a frequency array gives each channel its own value. '
     'The sampled track of a baseline lies on the ellipse its geometry implies. '
     'The station rotation matrices that relate local and Earth-centred frames are inverse to each other and geodetic to Earth-centred conversion inverts.',
     ['inputs'], 'all antenna positions, hour angles, declinations, latitudes, frequencies and frequency-array shapes',
     'Tests check shapes and one or two zenith values; sign and axis errors cancel at the sampled directions.',
     ['lsl/correlator/uvutils.py', 'lsl/common/stations.py'],
     [('uvw computation', 'lsl/correlator/uvutils.py:compute_uvw, compute_uv_track'),
      ('station frames', 'lsl/common/stations.py:LWAStation.eci_transform_matrix, geo_to_ecef, ecef_to_geo')],
     technique=PYT, note='floats as reals, sin/cos as symbols with sin^2+cos^2=1; antenna lists beyond one baseline and the ellipse/geodetic parts are bounded')
prop('C17', 'Polarization conversions preserve the visibilities',
     'Converting linear products to Stokes gives I=XX+YY, Q=XX-YY, U=XY+YX, V=i(XY-YX) for every visibility, converting those back to linear is the identity, and converting Stokes to circular gives RR=I+V, LL=I-V, RL=Q+iU, LR=Q-iU; only products whose inputs are both present are made. '
     'Each new product carries the mean of the input weights and is flagged exactly where either input is flagged; the data set converted is left unchanged, and data already in the requested form or with no usable pair is rejected.',
     ['inputs'], 'all complex visibilities, weights and flags, all subsets of products',
     'Tests check shapes and a few sample values; a swapped sign or product shows only for generic complex data and partial product sets.',
     ['lsl/imaging/utils.py', 'lsl/misc/beamformer.py'],
     [('conversions', 'lsl/imaging/utils.py:convert_to_stokes, convert_to_linear, convert_to_circular'),
      ('circular feeds', 'lsl/misc/beamformer.py:circularize')],
     technique=PYT, note='floats as reals')

prop('C01', 'Every DRX and DRX8 frame decodes to exactly what its bytes say',
     'Every frame that starts with the right sync word decodes to exactly its big-endian header fields and its 4096 complex samples (DRX: signed 4-bit real and imaginary parts in the high and low half of each byte, DRX8: signed 8-bit parts), the same values from the floating-point and the 8-bit integer readers, and leaves the file at the end of the frame. '
     'A frame with a wrong sync word gives a sync error that names the frame start, one that is cut short gives an end-of-file error, and a failing read is passed on. '
     'Beam, tuning, polarization, sample rate, frequency and time of a frame agree with the decoded fields.',
     ['inputs'], 'all 2^33024 possible frame contents, all truncation points, all sequences of frames in a file',
     'Tests read a few recorded frames and look at a handful of fields; sign extension, nibble order, field widths and byte order fail only for particular values.',
     ['lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp', 'lsl/reader/gofast.cpp', 'lsl/reader/readers.hpp', 'lsl/reader/drx.py', 'lsl/reader/drx8.py'],
     [('frame decoders', 'lsl/reader/drx.cpp:read_drx, lsl/reader/drx8.cpp:read_drx8'), ('lookup tables', 'lsl/reader/gofast.cpp:initLWALUTs'),
      ('frame views', 'lsl/reader/drx.py:FrameHeader, FramePayload, Frame; lsl/reader/drx8.py')],
     technique=IRT, note='every byte of the frame is symbolic; truncation lengths are bounded (0, 1, 31, 32, N-1)')

prop('C02', 'Every TBX frame decodes to exactly what its bytes say',
     'Every frame with the right sync word and a supported mode (64, 128 or 256 stands with 4, 8, 12 or 16 channels) decodes to its big-endian header fields and its signed 4+4-bit samples as channels x stands x 2 polarizations, the same from the floating-point and the 8-bit integer reader, whatever frames were read before it, and leaves the file at the end of the frame, even for the last frame of a file. '
     'A wrong sync word or an unsupported mode gives a sync error that names the frame start and leaves the file there, a frame that is cut short gives an end-of-file error, and a failing read is passed on. '
     'Time, channel frequencies and the TBX mark of a frame agree with the decoded fields.',
     ['inputs', 'histories'], 'all header and payload bytes, all cut points, all failing reads, all modes, all preceding modes',
     'Tests read a few frames of one recorded file; nibble order, axis order, mode changes and error positions only show for particular bytes and sequences.',
     ['lsl/reader/tbx.cpp', 'lsl/reader/tbx.py', 'lsl/reader/readers.hpp', 'lsl/reader/gofast.cpp'],
     [('frame decoding', 'lsl/reader/tbx.cpp:read_tbx_impl, read_tbx'), ('frame views', 'lsl/reader/tbx.py:FrameHeader, FramePayload, Frame, read_frame, read_frame_ci8')],
     technique=IRT, note='each mode proved from a reader in its initial state and from the state left by one other frame (bounded pairs)')
prop('C03', 'Every COR frame decodes to exactly what its bytes say',
     'Every frame with the right sync word and 33, 72, 112 or 192 channels decodes to its header fields, its stand pair, integration time and channel frequencies and to its visibilities as channels x 2 x 2 polarizations, bit for bit, with the YX product of an auto-correlation the conjugate of XY; the file is left at the end of the frame. '
     'A wrong sync word gives a sync error that names the frame start and leaves the file there, a frame that is cut short gives an end-of-file error, and a failing read is passed on.',
     ['inputs', 'histories'], 'all header and payload bytes, all cut points, all failing reads, all channel counts, all preceding channel counts',
     'Tests read a few frames of one recorded file; product order, sizes and error positions only show for particular bytes and sequences.',
     ['lsl/reader/cor.cpp', 'lsl/reader/cor.py', 'lsl/reader/readers.hpp', 'lsl/reader/gofast.cpp'],
     [('frame decoding', 'lsl/reader/cor.cpp:read_cor_impl, read_cor'), ('frame views', 'lsl/reader/cor.py:FrameHeader, FramePayload, Frame, read_frame')],
     technique=IRT, note='first channel and gain below 32768; a larger-channel file read right after a smaller-channel one is a known finding')
prop('C04', 'Every VDIF frame decodes to exactly what its bytes say',
     'Every VDIF frame, with a standard or a legacy header and 1, 2, 4 or 8 bits per sample, real or complex, one or more channels, decodes to its little-endian header fields and to the standard level of every sample, channels first, from the floating-point and the 8-bit integer reader, and leaves the file at the end of the frame length the header gives. '
     'A frame length too short for its header gives a sync error that leaves the file at the frame start, a frame that is cut short gives an end-of-file error, and unsupported sample sizes or channel counts that do not fit are rejected without touching memory outside the frame. '
     'The time of a frame is the reference epoch plus its seconds plus its frame number over the frame rate.',
     ['inputs', 'histories'], 'all header and payload bytes, all cut points, all failing reads, all combinations of sample size, type and header kind',
     'Tests read a few frames of one recorded file (4-bit, one channel); other sample sizes, complex, multi-channel and error paths are never run.',
     ['lsl/reader/vdif.cpp', 'lsl/reader/vdif.py', 'lsl/reader/readers.hpp', 'lsl/reader/gofast.cpp'],
     [('frame decoding', 'lsl/reader/vdif.cpp:read_vdif, parse_vdif, initVDIFLUTs'), ('frame views', 'lsl/reader/vdif.py:FrameHeader, FramePayload, Frame, read_frame, read_frame_i8')],
     technique=IRT, note='bounded in payload length (8, 48 bytes; 256 in thorough) and channel count (1, 2, 4); every bit symbolic')
prop('C05', 'Every DR spectrometer frame decodes to the normalised spectra it holds',
     'Every frame with the right magic numbers and one of the 13 formats decodes to its little-endian header fields, tuning words, fills, errors and saturation counts, and to one spectrum per tuning and product the format names, equal to the stored sums divided by the number of channels times the relevant fill (X, Y, or the smaller of both for cross and Stokes products); the file is left at the end of the frame. '
     'A wrong magic number gives a sync error that names the frame start with the file back there, a frame that is cut short gives an end-of-file error, and a failing read is passed on. '
     'Data products, sample rate, filter code, transform size, integration time, central frequencies, time and arithmetic on frames agree with the decoded fields.',
     ['inputs'], 'all header and payload bits, all 13 formats, all cut points, all failing reads',
     'Tests read one recorded format; interleaving, per-product normalisation and field offsets of the other formats are never run.',
     ['lsl/reader/drspec.cpp', 'lsl/reader/drspec.py', 'lsl/reader/readers.hpp'],
     [('frame decoding', 'lsl/reader/drspec.cpp:read_drspec, parse_linear_single, parse_linear_half, parse_linear_full, parse_stokes_single, parse_stokes_half, parse_stokes_full'),
      ('frame views', 'lsl/reader/drspec.py:FrameHeader, FramePayload, Frame, read_frame')],
     technique=IRT, note='bounded in the number of channels (1, 2, 5; more in thorough); every bit symbolic; fill times channels below 2^32')
prop('C18', 'Angle and position values survive every change of form',
     'Every angle converted between degrees, radians, degree/minute/second and hour/minute/second forms denotes the same angle to 1e-9 degrees (hour angles up to whole turns, into 0..24 h), with minutes and seconds in range and the sign kept; sums of hour angles and of seconds are the sums of the angles, and angles compare by their size in degrees. '
     'Position objects accept exactly the documented coordinate ranges, and attribute, index, sexagesimal and pickled views give back what was set. '
     'Direction cosines are the east, north and zenith components of the unit vector.',
     ['inputs'], 'all angles up to two turns, all degree/minute/second and hour/minute/second triples, all coordinates, all sums',
     'Tests check a handful of angles; carries at minute and degree boundaries, negative angles and range limits only fail at particular values.',
     ['lsl/astro.py'],
     [('angle conversions', 'lsl/astro.py:dms, hms, dms_to_deg, deg_to_dms, hms_to_deg, deg_to_hms, add_hms, add_secs_hms, range_degrees, range_hours'),
      ('positions', 'lsl/astro.py:hrz_posn, equ_posn, gal_posn, ecl_posn, geo_posn, rect_posn, dir_cos')],
     technique=PYT, note='float64 by a sound rounding-error model for the conversions and sums, reals elsewhere')
prop('C19', 'Calendar dates and time scales convert to the same instant',
     'For every date from 1973 on (days that end with a leap second aside) UTC dates, local dates with any UTC offset and Julian days convert into each other as the same instant with valid calendar fields, the day of the week is right at every time of day, and dates compare by instant; fields out of range are rejected. '
     'Conversions among UTC, TAI, TT, TDB, unix time, Julian and modified Julian days differ by exactly the published leap seconds and offsets and are inverse to each other.',
     ['inputs'], 'all dates 1973-2099, all times of day, all UTC offsets, all Julian days',
     'Tests check one or two dates; month ends, leap years, midnight and leap-second boundaries only fail at particular instants.',
     ['lsl/astro.py'],
     [('calendar', 'lsl/astro.py:date, zonedate, date_to_zonedate, zonedate_to_date, get_julian_day, get_date, get_day_of_week'),
      ('time scales', 'lsl/astro.py:leap_secs, utc_to_tai, tai_to_utc, utcjd_to_unix, unix_to_utcjd, tt_to_tdb and relatives')],
     technique=PYT, note='floats as reals; astropy Time, datetime, timegm/gmtime by contract (pv/models/cal.py), battery on the real ones every run')
prop('C12', 'Frame buffers release every frame once, in time order',
     'Whatever order frames arrive in, a frame buffer releases groups oldest first and only once enough later groups exist, each with the frames that arrived for that time (each stand/beam/thread id once, duplicates counted and dropped) in arrival order or, when asked, id order, and with zero-filled frames marked invalid and of the same time for the ones that are missing. '
     'Frames for a time already released are dropped and counted, the counts of full, partial, missing and dropped frames add up to what was put in, and flushing hands out all remaining groups in time order.',
     ['inputs', 'histories'], 'all arrival orders and histories of frames, all times, all buffer sizes, both return orders',
     'Tests run one or two recorded files in order; late, duplicate and missing frames in other orders are never tried.',
     ['lsl/reader/buffer.py'],
     [('buffer', 'lsl/reader/buffer.py:FrameBufferBase.append, get, flush, reset, status'), ('per-format figures and fills', 'lsl/reader/buffer.py:TBXFrameBuffer, DRXFrameBuffer, CORFrameBuffer, VDIFFrameBuffer')],
     level='exploration', technique=PYT, note='bounded in groups and frames per group (small counts), frame times symbolic and histories by induction over one step from any state; random histories on the real code every run')
prop('C13', 'Split files read like the one file they were cut from',
     'Reading, seeking and telling on a list of part files gives the same bytes, positions and end of file as on the one file they were cut from, for every sequence of operations, however small the parts; bad seeks are refused and change nothing, and the caller\'s list of names is left alone. '
     'The position saver puts the file back where it was after its block, also when the block raises.',
     ['inputs', 'histories'], 'all part sizes, read lengths, seek offsets and origins, all sequences of operations',
     'Tests split one file in two and read it forward; reads over several parts and relative seeks fail only for particular sizes and positions.',
     ['lsl/reader/utils.py'],
     [('split files', 'lsl/reader/utils.py:SplitFileWrapper, SplitFileWrapper.read, seek, tell'), ('position saver', 'lsl/reader/utils.py:FilePositionSaver')],
     technique=PYT, note='one part proved for all sizes; two and three parts bounded in part count, all sizes symbolic')
prop('C06', 'Simulated DRX frames carry exactly the fields and samples they were given',
     'A DRX frame built from a beam, tuning, polarization, decimation, time offset, time tag, flags and samples, or from a frame that was read, is written as one 4128-byte frame whose bytes, and what the reader makes of them, give those fields (tuning word included) and every sample rounded to the nearest integer in -8..7 back. '
     'Integer samples are kept as they are; beams, tunings, polarizations, lengths or types out of range are refused, and the samples passed in are left unchanged.',
     ['inputs'], 'all field values, all sample values at every place, floating-point and integer samples',
     'Tests copy a few recorded frames and compare some of the fields; nibble signs, rounding, clipping and field bytes fail only for particular values.',
     ['lsl/sim/drx.py'],
     [('raw frames', 'lsl/sim/drx.py:frame_to_frame'), ('frame objects', 'lsl/sim/drx.py:SimFrame.create_raw_frame, write_raw_frame, load_frame, is_valid')],
     technique=PYT, note='field bytes and four sample places symbolic (numpy element operations by contract), every sample value at every place on the real code; floats as reals')
prop('C07', 'VDIF frames written carry exactly the time and samples they were given',
     'A VDIF frame written for a station, time, sample size (1, 2, 4 or 8 bits), sample rate and real or complex samples holds, in the VDIF header layout, that station, frame length, sample size and type and the sample rate in kHz, and its epoch, seconds and frame number (below the number of frames in a second) denote the given time for every time from 2000 to 2031. '
     'Every sample in range comes back from the reader as the standard level of its value, in order, and other sample sizes are refused.',
     ['inputs'], 'all times (leap-second days included), stations, sample rates, sample sizes and sample values',
     'Tests write frames at the current time with 8-bit real and 4-bit complex samples; half-year changes, leap-second days, second boundaries and other sample sizes are never tried.',
     ['lsl/writer/vdif.py'],
     [('frame time', 'lsl/writer/vdif.py:Frame._set_epoch'), ('samples', 'lsl/writer/vdif.py:Frame._data_adjust'), ('raw frame', 'lsl/writer/vdif.py:Frame.create_raw_frame')],
     technique=PYT, note='time proved for five sample-rate/frame-size pairs with every time; layout bounded to two words of samples with every bit symbolic; floats as reals')
prop('C20', 'The FX correlator gives the correlations of the delayed, channelised signals',
     'For every input the F engines (with or without window or polyphase filter) give the discrete Fourier transform of each antenna\'s samples starting at its whole-sample delay, rotated by its remaining delay, with a block marked invalid exactly when a sample in it reaches the clip level, and the X engines give, for each antenna pair and product, the mean over the blocks valid in both of signal 1 times the conjugate of signal 2 (Stokes products the standard combinations), zero where there are none. '
     'FXMaster and FXStokes apply the cable gains and number the baselines as documented, with nothing read or written outside the arrays.',
     ['inputs'], 'all sample values and types, delays, frequencies, gains, windows, clip levels and blanking patterns',
     'Tests compare shapes and a few noise runs with another implementation; conjugation, delay sign, per-baseline blanking and edge blocks fail only for particular data, delays and sizes.',
     ['lsl/correlator/core.cpp', 'lsl/correlator/stokes.cpp', 'lsl/correlator/fx.py'],
     [('F engines', 'lsl/correlator/core.cpp:FEngine, PFBEngine, compute_fengine_real, compute_fengine_complex'),
      ('X engines', 'lsl/correlator/core.cpp:XEngine2, XEngine3; lsl/correlator/stokes.cpp:XEngine2, XEngine3'),
      ('drivers', 'lsl/correlator/fx.py:FXMaster, FXStokes')],
     level='exploration', technique=IRT, note='every sample, delay and weight symbolic at small fixed array sizes (bounded); FFTW as an exact DFT, floats as reals; compiled extension and drivers run on random data every run')
prop('C21', 'Spectra are the mean power spectra of the valid blocks',
     'For every input SpecMaster and StokesMaster give, for each antenna and channel, the mean over the blocks with no sample at the clip level of the squared modulus of the windowed (or polyphase filtered) discrete Fourier transform in the documented channel order, or of the four Stokes combinations of the two polarizations, and zero when every block is blanked; real input keeps the positive frequencies. '
     'Nothing is read or written outside the arrays for any sizes, and the channel frequencies returned belong to the spectra.',
     ['inputs'], 'all sample values and types, windows, overlaps, clip levels and blanking patterns',
     'Tests compare a few noise runs with another implementation; normalisation with blanking, channel order, odd sizes and overlaps fail only for particular data and sizes.',
     ['lsl/correlator/spec.cpp', 'lsl/correlator/stokes.cpp', 'lsl/correlator/fx.py'],
     [('power spectra', 'lsl/correlator/spec.cpp:FPSD, PFBPSD, compute_psd_real, compute_psd_complex'), ('Stokes spectra', 'lsl/correlator/stokes.cpp:FPSD, PFBPSD'),
      ('drivers', 'lsl/correlator/fx.py:SpecMaster, StokesMaster')],
     level='exploration', technique=IRT, note='every sample and window value symbolic at small fixed array sizes (bounded); FFTW as an exact DFT, floats as reals; compiled extension and drivers run on random data every run')
prop('C22', 'Phase-and-sum beamforming points the array where it is asked to',
     'For every set of antennas and every direction calc_delay gives each antenna its cable delay minus the light travel time from the centre of the array along the pointing direction, refusing directions that are not on the sky. '
     'BEngine gives for each channel and time and each polarization the mean over the inputs marked valid of coefficient times sample (zero when there are none), for every data type, size and memory layout, reading and writing only inside its arrays; phase_and_sum combines the two over the good antennas of each polarization.',
     ['inputs'], 'all antenna positions, cable delays, directions, data types, sample values, coefficients and validity patterns',
     'Tests compare against a point source and a few shapes; the sign of the geometric delay in each axis, validity masks, block edges in time and integer input types fail only for particular data and sizes.',
     ['lsl/misc/beamformer.cpp', 'lsl/misc/beamformer.py'],
     [('engine', 'lsl/misc/beamformer.cpp:BEngine, phase_and_sum_real, phase_and_sum_complex'), ('delays', 'lsl/misc/beamformer.py:calc_delay'), ('driver', 'lsl/misc/beamformer.py:phase_and_sum')],
     level='exploration', technique=IRT, note='every sample and coefficient symbolic at fixed array sizes (bounded); calc_delay for every position, delay and direction of three stands; floats as reals; compiled extension run on random data every run')
prop('C26', 'Frame arithmetic acts on the samples only and frames sort by time',
     'For every frame type, adding, subtracting, multiplying or dividing by a number or by another frame of the same kind applies that operation to every sample, gives a new frame with the header unchanged and leaves both operands as they were, while the in-place forms change the left frame only. '
     'Frames compare by their time stamps as a total order consistent with equality, and spectrometer frames combine product by product, refusing frames with different products.',
     ['inputs'], 'all frame types, time tags, sample values, operands and operators',
     'Tests do each operation once on one or two frames; aliasing of data between operands, header changes and comparisons across seconds show only for particular histories.',
     ['lsl/reader/base.py', 'lsl/reader/drspec.py'],
     [('operators', 'lsl/reader/base.py:FrameBase.__add__ ... __itruediv__'), ('comparisons', 'lsl/reader/base.py:FrameBase.__eq__, __lt__'), ('spectrometer', 'lsl/reader/drspec.py:Frame.__add__, __mul__, __iadd__, __imul__')],
     technique=PYT, note='numpy arrays by one representative element (arithmetic is element-wise); every number and time tag symbolic; floats as reals')
prop('C23', 'Visibility data sets keep baseline, uvw, data, weight and mask together',
     'Sorting, copying, selecting by antenna or by uv range, appending, removing and rephasing visibility data keep every baseline with its own uvw coordinates, visibilities, weights and flags in every polarization, and a selection holds exactly the baselines that were asked for, each once, in order. '
     'A copy or a selection shares nothing with the original, integrations are kept one per time and sort by time, and rephasing multiplies each visibility by the phase of the difference of the w coordinates, whatever centers came before.',
     ['inputs', 'histories'], 'all baselines, antennas, stand numbers, uv coordinates, limits, selections, times and sequences of operations',
     'Tests select and sort one simulated array that is already in order; duplicated antennas, unsorted baselines, limits met exactly, several integrations and selections by stand number are not tried.',
     ['lsl/imaging/data.py', 'lsl/sim/vis.py'],
     [('selection', 'lsl/imaging/data.py:VisibilityDataSet.get_uv_range, get_antenna_subset, VisibilityData.get_antenna_subset'), ('order', 'lsl/imaging/data.py:VisibilityDataSet.sort, _baseline_order, VisibilityData.sort'),
      ('contents', 'lsl/imaging/data.py:PolarizationDataSet.append, extend, sort, subset, copy'), ('phase centers', 'lsl/imaging/data.py:VisibilityDataSet.rephase'), ('gains', 'lsl/sim/vis.py:scale_data')],
     level='exploration', technique=PYT, note='one to four baselines with every antenna index, stand number, uv coordinate, limit, selection and time symbolic (bounded in number); rephasing and gains by concrete runs with the real antenna array')
prop('C24', 'Visibility files read back exactly as they were written',
     'Visibilities written to FITS-IDI (plain, AIPS and extended), UVFITS and measurement set files, or to the virtual writer, read back with every visibility on its own baseline, polarization, frequency channel and integration, whatever the stand numbers, the order of the baselines and of the data sets, the number of bands and the polarizations. '
     'Times (mid-integration in measurement sets), integration times, frequencies, stands and their positions, weights (FITS-IDI) and phase centers come back as given, and the uvw coordinates are those of the baseline for the phase center at that time.',
     ['inputs', 'histories'], 'all stand numbers, antenna and baseline orders, bands, channels, polarizations, times, phase centers, weights; sequences of data sets',
     'Tests write one integration of a sorted array at zenith and compare the tables with what the writer was given; later integrations, other orders, large stand numbers and other phase centers are not read back.',
     ['lsl/writer/fitsidi.py', 'lsl/writer/uvfits.py', 'lsl/writer/measurementset.py', 'lsl/writer/virtual.py', 'lsl/imaging/utils.py'],
     [('baseline numbers', 'lsl/writer/fitsidi.py, uvfits.py: merge_baseline, split_baseline, set_geometry'), ('data', 'lsl/writer/fitsidi.py:Idi._write_uvdata_hdu; uvfits.py:Uv._write_primary_hdu; measurementset.py:Ms._write_main_table; virtual.py:VirtualWriter'),
      ('sources', '_write_source_hdu, _write_aipssu_hdu, _write_observation_table'), ('reading', 'lsl/imaging/utils.py:CorrelatedDataIDI, CorrelatedDataUV, CorrelatedDataMS')],
     level='exploration', technique=PYT, note='baseline numbers, order of data sets and frequency setups proved for all values; whole files by concrete round trips (bounded) against a first-principles oracle')
prop('C25', 'Gridded images are the Fourier sum of their visibilities',
     'The image made from visibility data is, over its inner half and to the accuracy of the gridding kernel, the Fourier sum of every selected visibility and its conjugate at their (u,v,w), each added once whatever the image size, the number of w planes, baselines beyond the grid, images made before, integrations and channels; the beam is the same sum over the weights, and weighting and tapering scale the gridded cells as defined. '
     'Making an image changes neither the data nor what was gridded, and the coordinates of the pixels put the phase center at the center with north up and east left, labelled with the equinox they are for.',
     ['inputs', 'histories'], 'all visibility values and weights, image sizes and resolutions, uvw coordinates, integrations, channels, weightings and tapers, phase centers, times; sequences of images',
     'Tests make one image from one recorded file and check that nothing raises; values of pixels, other sizes, single w planes and second images are not compared.',
     ['lsl/imaging/gridder.cpp', 'lsl/imaging/utils.py'],
     [('gridding', 'lsl/imaging/gridder.cpp:WProjection, compute_gridding, compute_planes, w_projection_kernel'), ('images', 'lsl/imaging/utils.py:build_gridded_image, ImgWPlus.image, bm_image, _gen_img'),
      ('coordinates', 'lsl/imaging/utils.py:ImgWPlus.wcs, get_image_radec, get_image_azalt')],
     level='exploration', technique=IRT, note='small grids with listed positions and every value of visibilities and weights symbolic (bounded); sizes, weighting, coordinates by concrete runs of the compiled gridder')
prop('C27', 'Simulated visibilities are the sum over the sources above the horizon',
     'Simulated visibilities are, for every baseline, channel, polarization and time, the sum over the sources above the horizon of flux density, bandpass, beam and (when asked for) source size times the phase of the source relative to the phase center, with the uvw coordinates of that baseline, center and time; nothing carries over from one simulation to the next and the polarizations share nothing. '
     'Shifting to another array gives that array\'s uvw at the time of each integration and leaves the visibilities alone, and baseline noise has zero mean, the deviation of the radiometer equation for its two antennas, and is independent everywhere.',
     ['inputs', 'histories'], 'all flux densities, positions, frequencies, channel ranges, baselines, sources, shapes, phase centers, times, polarizations; sequences of simulations',
     'Tests simulate one scene and check shapes and that no exception is raised; no visibility is compared with its definition, and second simulations, subsets and several times are not tried.',
     ['lsl/sim/simfast.cpp', 'lsl/sim/vis.py'],
     [('sum over the sources', 'lsl/sim/simfast.cpp:FastVis, compute_visibility'), ('data sets', 'lsl/sim/vis.py:build_sim_array, build_sim_data'), ('perturbations', 'lsl/sim/vis.py:shift_data, add_baseline_noise'), ('beams', 'lsl/sim/vis.py:Antenna.bm_response, Beam.response')],
     level='exploration', technique=IRT, note='listed positions and directions with every flux density symbolic (bounded); data sets by concrete runs against a sum written out from stand positions and azimuth/altitude')
prop('C28', 'Dedispersion takes out exactly the delay of each frequency',
     'The dispersion delay of a set of frequencies is that of a cold plasma relative to the highest of them (to infinite frequency for a single one), whatever their order. '
     'Incoherent dedispersion moves every channel earlier by its delay to the nearest integration, wrapping around or filling the end as asked for. '
     'Coherent dedispersion filters every sample with the inverse dispersion over windows twice as long as the delay across the band, also at the ends when neighbouring data are given (zeros otherwise), so that data in pieces give the same as the whole, keeps each time with its sample, and depends on nothing that was dedispersed before; the data given are left unchanged.',
     ['inputs', 'histories'], 'all frequencies, dispersion measures (also below one sample), integration times, waterfalls, streams and lengths, neighbouring buffers, tapers; sequences of calls with the chirp cache',
     'Tests dedisperse one pulse at one frequency with one length that is a whole number of windows; ends, buffers, fills, other lengths and repeated calls are not tried.',
     ['lsl/misc/dedispersion.py'],
     [('delay', 'lsl/misc/dedispersion.py:delay'), ('waterfalls', 'lsl/misc/dedispersion.py:incoherent'), ('streams', 'lsl/misc/dedispersion.py:coherent, get_coherent_sample_size, _chirp, _taper')],
     level='exploration', technique=PYT, note='delays proved; waterfalls of 4 x 3 with symbolic values and dispersion measure, streams of 4 to 8 symbolic samples with windows of 4 (bounded); longer ones by concrete runs against the definition and the group delay')
prop('C29', 'Robust statistics and spectral kurtosis are what their definitions say',
     'The robust mode, mean, biweight mean and standard deviation of any data are the half-sample mode, the resistant mean with the given cut and the biweight estimates of Freudenreich\'s library, along any axis, with masked values left out and the data left unchanged; a tenth of the data being arbitrary does not move them. '
     'Robust line and polynomial fits recover the polynomial the data lie on, are not moved by a few outliers, leave out masked points and do not depend on the order of the points. '
     'Spectral kurtosis along any axis is the generalized estimator for the number of values along that axis, and its expected moments and limits are those of Nita and Gary, with the process\'s numerical error handling left as it was.',
     ['inputs', 'histories'], 'all data, shapes, axes, masks, cuts, orders of fits, numbers of values and averages',
     'Tests compare one fixed sample with stored values; ties, small and even sizes, fits of order zero, masked arrays with nothing masked and axes other than the first are not tried.',
     ['lsl/statistics/robust.py', 'lsl/statistics/kurtosis.py'],
     [('estimators', 'lsl/statistics/robust.py:mode, mean, biweight_mean, std'), ('fits', 'lsl/statistics/robust.py:linefit, polyfit, checkfit'), ('kurtosis', 'lsl/statistics/kurtosis.py:spectral_power, spectral_fft, var, skew, get_limits')],
     level='exploration', technique=PYT, note='moments of the kurtosis proved for all M and N; mode of up to six symbolic values and kurtosis of 2 x 3 symbolic values (bounded); the iterative estimators and fits by concrete runs against the definitions')
prop('C14', 'Data files read in chunks of any length give every sample once, in its place',
     'Reading a DRX, DRX8, TBX, COR or DR spectrometer recording through the LDP file objects in chunks of any length gives, chunk after chunk, every recorded sample exactly once at the place of its stream and time, zeros where frames were lost (also whole time steps, and next to the end of the file), the time of the first sample and the duration actually read, and EOFError once everything has been read. '
     'offset() returns exactly how far the next read has moved, and the description of a file (sizes, counts, rates, frequencies, start time) is that of its frames and leaves the file position alone.',
     ['inputs', 'histories'], 'all recordings, chunk lengths, losses, buffer sizes, offsets between reads',
     'Tests read a few chunks from the start of one clean recording per format; losses, ends of file inside a chunk and offsets after a read are not tried.',
     ['lsl/reader/ldp.py', 'lsl/reader/buffer.py'],
     [('chunked reads', 'lsl/reader/ldp.py:DRXFile.read, DRX8File.read, TBXFile.read, CORFile.read, DRSpecFile.read, LDPFileBase._zero_fill'),
      ('moving', 'lsl/reader/ldp.py:offset, reset, read_frame'), ('description', 'lsl/reader/ldp.py:_ready_file, _describe_file, get_info, LWADataFile')],
     level='exploration', technique=PYT, note='bounded in frame sets per recording (contracts: 4 sets, any loss pattern, symbolic time tags and chunk lengths; battery on the compiled readers: up to 45 sets)')
prop('C11', 'Session and run definition files say exactly what was asked for',
     'A session (SDF) or run (IDF) that validates is written to a file that reads back with every setting as it was given: start and duration of each observation to the millisecond, tuning words, filter, gains, pointings to 1e-9, steps with their beam type, delays and gains, beam-dipole, FEE and ASP settings, MIB intervals, spectrometer, logs, correlator setup and phase centers; nothing is carried over from one observation or step to the next. '
     'It validates exactly when tunings, filter, duration, settings and visibility are allowed and no two observations overlap, and nothing is written otherwise. '
     'Times and durations given in any accepted form (text, datetime, timedelta, numbers, astropy) denote that instant or length to the nearest millisecond, and an IDF gives one valid SDF per station with the same scans.',
     ['inputs', 'histories'], 'all start times 1972-2099, durations, tuning words, pointings, settings; sequences of observations and steps',
     'Tests write and read a few fixed sessions; carry-over between observations, rounding of times and durations, leap-second days and combinations of settings are not tried.',
     ['lsl/common/sdf.py', 'lsl/common/idf.py', 'lsl/common/_sdf_utils.py'],
     [('sessions', 'lsl/common/sdf.py:Project.render, writeto, parse_sdf, Session.validate, Observation, BeamStep, Stepped'),
      ('runs', 'lsl/common/idf.py:Project.render, parse_idf, generate_sdfs, Run.validate, Scan, AlternatePhaseCenter'), ('times', 'lsl/common/_sdf_utils.py:parse_time')],
     technique=PYT, note='each contract covers two observations (or three steps) one after the other with every number symbolic, written to and read back from a real file whose numbers are tracked through the text; floats as reals except for start times (rounding-error model); longer sessions by battery on the real code')
