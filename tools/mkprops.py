"""Source of properties.jsonl (run once after editing; properties.jsonl is the committed artefact)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = False
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "RSR data are downloaded exactly when outdated and permitted",
  "Constructing a spectral-response object by platform and instrument, or asking for an update check, downloads the RSR archive exactly when the version marker in the configured RSR directory differs from the version the package expects and downloading is enabled in the configuration; the marker's first line, stripped, is what counts, and a missing marker means outdated. "
  "Opening an explicit file never touches the network, and an explicit download always fetches; a dry run never touches the network or creates files in the data directory. "
  "The update check reports an update as needed exactly when the marker is outdated, whether or not downloading is enabled, and a successful update leaves the released content in the requested directory with the temporary archive removed.",
  ["histories", "configurations", "inputs"],
  "every history of update checks, object constructions, dry runs, explicit downloads, marker edits and configuration changes, over every marker content and destination",
  "Tests mock the downloader and check one or two marker values; they do not follow histories in which marker, configuration flag, destination and kind of call vary together.",
  ["pyspectral/rsr_reader.py", "pyspectral/utils.py", "pyspectral/config.py"],
  [("version gate", "pyspectral/rsr_reader.py:_RSRDataBase.download_rsr_updates"), ("download", "pyspectral/utils.py:download_rsr"), ("constructor", "pyspectral/rsr_reader.py:RelativeSpectralResponse.__init__")])

p("C02", "Rayleigh LUTs: only outdated requested aerosol types are updated",
  "Checking the atmospheric-correction tables downloads exactly those requested aerosol types (all of them by default) whose version marker differs from the expected one, each from its own archive address into its own directory, and leaves every other type untouched. "
  "Creating a correction object downloads only its own aerosol type, only when that is outdated and downloading is enabled, and uses the table of its own atmosphere; unsupported aerosol or atmosphere names are rejected without any download. "
  "Dry runs neither contact the network nor create any table directory or file.",
  ["histories", "configurations", "inputs"],
  "every history of checks, explicit downloads, object creations and marker edits over the eleven aerosol types, six atmospheres and both settings of the download flag",
  "Tests patch the downloader and exercise one aerosol type at a time; which subset is fetched, from where and into which directory depends on the whole marker state.",
  ["pyspectral/rayleigh.py", "pyspectral/utils.py"],
  [("per-type version gate", "pyspectral/rayleigh.py:check_and_download, RayleighConfigBaseClass"), ("per-type URL and directory", "pyspectral/utils.py:download_luts, HTTPS_RAYLEIGH_LUTS")])

p("C03", "A failed or interrupted download never looks complete and is recoverable",
  "If fetching or unpacking an archive fails at any point (HTTP error status, broken or truncated transfer, unreadable archive, full disk, process killed), the data directory is not regarded as up to date unless every file of the new release is completely in place, and no error is reported as success. "
  "A later attempt without the fault then brings the directory to the complete released content. "
  "This holds for both the spectral-response data and the atmospheric-correction tables, whatever the order of the files inside the archive.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash or fault position in the fetch/unpack/cleanup sequence, every archive member order, one or more failing attempts followed by a retry",
  "Tests never kill a download half-way; the guarantee is about all intermediate disk states, of which there is one per written chunk and per extracted member.",
  ["pyspectral/utils.py", "pyspectral/rsr_reader.py", "pyspectral/rayleigh.py"],
  [("fetch and unpack", "pyspectral/utils.py:_download_tarball_and_extract"), ("version markers", "pyspectral/rsr_reader.py:rsr_data_version; pyspectral/rayleigh.py:_get_lutfiles_version")])

p("C04", "The brightness-temperature table cache never changes a result",
  "A 3.x micron reflectance calculator gives the same radiances and reflectances as one created with an empty cache directory, whatever calculators (other bands, detectors, wave spaces, platforms) were created before, after or at the same time using the same cache directory. "
  "A process killed while writing a cache file, or racing with another process, never makes a later or concurrent calculator fail or use a partial table. "
  "A configured table file name is honoured for its own platform, instrument and band (a missing directory falls back to the cache directory), and an existing table is read, not rebuilt.",
  ["histories", "schedules", "crash_points", "configurations"],
  "all histories and interleavings of calculator creations over platforms, bands, detectors and wave spaces sharing a cache directory, with a kill at any write",
  "Tests create one calculator in a fresh temporary directory; cross-talk needs two different calculators, or a crash between creating and completing the file.",
  ["pyspectral/near_infrared_reflectance.py", "pyspectral/radiance_tb_conversion.py"],
  [("cache file naming", "pyspectral/near_infrared_reflectance.py:Calculator._set_lutfile"), ("cache fill", "pyspectral/near_infrared_reflectance.py:Calculator._set_lut; pyspectral/radiance_tb_conversion.py:make_tb2rad_lut")])

p("C05", "Spectral responses survive the HDF5 format unchanged",
  "Reading a spectral-response file yields, for every listed band and every detector, exactly the stored responses, the stored wavelengths scaled to micrometres and the stored central wavelength, with detector-level values taking precedence over band-level ones, and the platform, instrument, description and band list recorded in the file. "
  "Converting raw instrument responses (given in micrometres) to the internal format and opening the result by platform and instrument gives back the original wavelengths, responses and central wavelengths up to single precision. "
  "A missing file is an error naming the path, and giving both a file and a platform or instrument, or only one of the latter, is an error.",
  ["inputs", "histories", "programs"],
  "every band/detector layout, scale, attribute encoding and set of raw responses",
  "Tests mock h5py with one layout and no test reads back what the converter writes.",
  ["pyspectral/rsr_reader.py", "pyspectral/utils.py"],
  [("reader", "pyspectral/rsr_reader.py:_load_rsr_info_from_file"), ("writer", "pyspectral/utils.py:convert2hdf5")])

p("C06", "Band names and wavelengths always resolve to the right band",
  "Looking up a band in a spectral-response object returns the band stored under that name if there is one, otherwise the band the instrument's alias table names, otherwise (when the instrument's table has no such alias) the generic alias; anything else is a key error, and the defaulting lookup returns the default in exactly those cases. "
  "Looking up by wavelength returns the (translated) name of the single band whose central wavelength lies strictly closer than the tolerance and strictly closer than 2 micrometres; none gives no band, and several give an error or, on request, the full list in file order. "
  "Lookups never change the stored responses.",
  ["inputs", "configurations", "histories"],
  "every instrument alias table, every subset of stored bands, every key, wavelength, tolerance and multiplicity option",
  "Tests sample a handful of instruments and one wavelength; the precedence of direct name, instrument alias and generic alias and the strict boundaries depend on the combination.",
  ["pyspectral/rsr_reader.py", "pyspectral/utils.py", "pyspectral/bandnames.py"],
  [("alias lookup", "pyspectral/rsr_reader.py:RSRDict"), ("wavelength lookup", "pyspectral/utils.py:get_bandname_from_wavelength"), ("alias tables", "pyspectral/bandnames.py:BANDNAMES")])

p("C07", "Instrument names resolve consistently to the platform's instrument and file",
  "For every known platform and any spelling of an instrument name, the resolved instrument is one the platform carries (the requested one if it carries it, otherwise its first), lower-case without slashes and dashes; resolving a resolved name gives the same name again, and for unknown platforms the name is only normalised. Two instrument names are reported identical when they are equal or the second is the dash spelling of the first (avhrr-3 for avhrr/3), never when they name different instruments. "
  "The spectral-response file opened is the one named after that resolved instrument and the platform, in the configured directory. "
  "The atmospheric correction accepts an instrument the platform carries, replaces a wrong one on single-instrument platforms and refuses an ambiguous one.",
  ["inputs", "configurations"],
  "every platform in the platform table and unknown platforms, every instrument name and spelling (case, dash, slash, none)",
  "Tests check four or five (platform, instrument) pairs out of thousands; idempotence needs each output fed back as input.",
  ["pyspectral/utils.py", "pyspectral/rsr_reader.py", "pyspectral/rayleigh.py"],
  [("name adjustment", "pyspectral/utils.py:check_and_adjust_instrument_name, are_instruments_identical"), ("file name", "pyspectral/rsr_reader.py:_get_rsr_filename"), ("sensor check", "pyspectral/rayleigh.py:normalize_sensor")])

p("C08", "Wavelength-to-wavenumber conversion happens once and keeps samples aligned",
  "Converting a response set to wavenumbers maps each wavelength w in micrometres to 10000/w per centimetre in ascending order with every response value still attached to its own spectral point, for every band and detector, reports the unit and SI scale accordingly and updates the central wave quantity consistently. "
  "Converting an object a second time is refused and leaves it unchanged; the functional form leaves its input untouched and passes through data already in wavenumber space. "
  "The per-detector response integral equals the trapezoidal area of the stored curve.",
  ["inputs", "histories"],
  "every response set sampled at increasing wavelengths (bands, detectors, dictionaries of responses, sampling) and every sequence of convert, integral and lookup calls",
  "Tests convert one object once or twice; alignment and atomicity of the refused second conversion must hold for all bands, detectors and call orders.",
  ["pyspectral/rsr_reader.py", "pyspectral/utils.py"],
  [("object conversion", "pyspectral/rsr_reader.py:RelativeSpectralResponse.convert"), ("functional conversion", "pyspectral/utils.py:convert2wavenumber"), ("integral", "pyspectral/rsr_reader.py:RelativeSpectralResponse.integral")])

p("C09", "Planck radiance and its inverse are exact inverses and physically monotone",
  "For every positive wavelength or wavenumber and temperature the black-body radiance equals Planck's law in SI units and the inverse function returns the temperature it came from; radiance increases strictly with temperature, and the wavelength and wavenumber forms describe the same physical radiance. "
  "Temperatures within one micro-kelvin of zero give NaN, and NaN inputs give NaN, without affecting other elements. "
  "The result for each element does not depend on the container (scalar, array, masked, chunked, labelled), on the precision beyond rounding, or on how arrays are chunked.",
  ["inputs", "configurations"],
  "every wavelength/wavenumber in 0.3-100 micrometres, every temperature, every container, dtype and chunking",
  "Tests compare a handful of scalars with constants; inversion, monotonicity and container independence are statements over the whole domain.",
  ["pyspectral/blackbody.py", "pyspectral/utils.py"],
  [("forward", "pyspectral/blackbody.py:planck, blackbody, blackbody_wn"), ("inverse", "pyspectral/blackbody.py:blackbody_rad2temp, blackbody_wn_rad2temp"), ("chunk mapping", "pyspectral/utils.py:use_map_blocks_on")])

p("C10", "Band radiance and brightness temperature agree with the response curve",
  "The radiance of a band for a brightness temperature is the Planck function weighted by the band's response and divided by the response integral (or not divided, when the integrated radiance is asked for), in the wave space chosen and with the matching unit. "
  "With a look-up table the result is the table entry whose temperature is the input truncated to the table resolution, saturating at both ends, for any input temperature however extreme, and independent of dtype, shape and chunking. "
  "The table made by the converter holds the band radiance every resolution step from 150 K up to 360 K. The tabulated-coefficient converter for SEVIRI follows the documented regression and inverts itself for every band (under all its names) and platform it has coefficients for, and converting radiance back to temperature uses the band's central wavelength.",
  ["inputs", "configurations"],
  "every temperature (including fill values), band, detector, wave space, resolution, dtype, container and chunking",
  "Tests compare a few hand-computed radiances; saturation, truncation and integer range only show for particular temperatures and resolutions.",
  ["pyspectral/radiance_tb_conversion.py"],
  [("band radiance", "pyspectral/radiance_tb_conversion.py:RadTbConverter.tb2radiance"), ("table", "pyspectral/radiance_tb_conversion.py:make_tb2rad_lut, read_tb2rad_lut"), ("SEVIRI coefficients", "pyspectral/radiance_tb_conversion.py:SeviriRadTbConverter")])

p("C11", "3.x micron reflectance follows its defining formula and masks what is undefined",
  "For every pixel the derived reflectance is the measured minus the (CO2-corrected) thermal radiance divided by the solar minus the thermal radiance, using the solar zenith angle clipped to the configured threshold and the in-band solar flux given, or else derived for the calculator's own band and detector. "
  "It is undefined (NaN, or masked for masked input) exactly when the denominator is below 0.005, the sun angle is negative or beyond the masking limit (when one is set), or a required input is missing; no pixel influences another, and scalar, list, numpy, masked and chunked inputs agree. "
  "The emissive part always belongs to the latest derived reflectance, equals the thermal radiance times one minus the reflectance, and falls back to the measured radiance where reflectance is undefined.",
  ["inputs", "histories", "configurations"],
  "every combination of temperatures, sun angles, limits, CO2 temperatures, containers and dtypes, and every sequence of reflectance and emissive-part calls on one calculator",
  "Tests use one or two pixels per configuration; the masking boundaries and the coupling between successive calls are not sampled.",
  ["pyspectral/near_infrared_reflectance.py"],
  [("reflectance", "pyspectral/near_infrared_reflectance.py:Calculator.reflectance_from_tbs"), ("emissive part", "pyspectral/near_infrared_reflectance.py:Calculator.emissive_part_3x"), ("CO2 correction", "pyspectral/near_infrared_reflectance.py:Calculator.derive_rad39_corr")])

p("C12", "Rayleigh reflectance is the clipped table interpolation under any chunking",
  "For every pixel the correction is 100 times the table value interpolated linearly in wavelength and in the secants of the sun and satellite zenith angles and the azimuth difference (0 to 180 degrees), with zenith angles limited to the table's range and missing zenith angles treated as zero, then reduced linearly where the red band exceeds 20 percent and limited to 0-100. "
  "A band whose effective wavelength lies outside the table's wavelength range gets a zero correction for numpy and chunked input alike, with or without a red band, and an unreadable table is an error. "
  "The numbers are the same for numpy and chunked arrays, any chunking, dtype (up to rounding), byte order and shape, and the high-zenith reduction scales by a factor between 0 and 1 that is 1 up to the threshold and falls linearly towards the maximum angle.",
  ["inputs", "configurations"],
  "every angle triple, red-band value, wavelength or band name, table, dtype, container and chunking",
  "Tests mock the table interpolation for a few pixels; chunk, NaN, edge and out-of-range combinations are unbounded.",
  ["pyspectral/rayleigh.py"],
  [("interpolation", "pyspectral/rayleigh.py:Rayleigh.get_reflectance, _interp_rayleigh_refl_by_angles"), ("wavelength interpolation", "pyspectral/rayleigh.py:_get_wavelength_adjusted_lut_rayleigh_reflectance"), ("high-zenith reduction", "pyspectral/rayleigh.py:Rayleigh.reduce_rayleigh_highzenith")])

p("C13", "IR viewing-angle correction is pointwise and leaves its inputs alone",
  "For every pixel with valid data the corrected brightness temperature depends on that pixel's temperature and satellite zenith angle only: the nadir formula at angle zero, the slant formula strictly between 0 and 90 degrees, and the unchanged value at any other angle. "
  "Numpy, masked and chunked inputs of any shape give the same numbers, masked pixels stay masked, and the arrays passed to the correction object are never modified. "
  "Asking for a correction based on a named atmosphere is refused.",
  ["inputs", "configurations"],
  "every temperature, angle, mask, shape, container and chunking",
  "Tests use one 6-pixel array; pointwise independence, non-mutation and boundary angles hold over all arrays.",
  ["pyspectral/atm_correction_ir.py"],
  [("viewing-angle correction", "pyspectral/atm_correction_ir.py:viewzen_corr"), ("wrapper", "pyspectral/atm_correction_ir.py:AtmosphericalCorrection.get_correction")])

p("C14", "In-band solar flux and irradiance are the response-weighted solar integrals",
  "The in-band flux of a response is the integral of solar spectrum times response over the response's spectral range, and the in-band irradiance is that flux divided by the response integral, in wavelength or wavenumber space, for the requested detector and scale. "
  "Flux is linear in the response and irradiance does not change when the response is multiplied by a constant. "
  "Repeating or interleaving calls for different bands, detectors or quantities on one spectrum object gives the same answers as fresh objects, and the solar constant and loaded spectrum are never altered by them; a missing spectrum file is an error.",
  ["inputs", "histories", "configurations"],
  "every response curve, detector, scale, resolution and sequence of calls on one spectrum object",
  "Tests check four constants; the history independence and linearity cannot be sampled by single values.",
  ["pyspectral/solar.py"],
  [("band integration", "pyspectral/solar.py:SolarIrradianceSpectrum._band_calculations"), ("interpolation state", "pyspectral/solar.py:SolarIrradianceSpectrum.interpolate")])

p("C15", "Configuration is always resolved from the current environment and file",
  "Every configuration read returns exactly the settings of the file given explicitly, else of the file named by the environment variable at that moment, else of the packaged defaults, with nothing carried over from earlier reads or from changes a caller made to an earlier result. "
  "The RSR and Rayleigh directory settings default to the user's data directory, have the home shortcut expanded, and exist afterwards. "
  "An environment variable pointing to something that is not a file is an error, never a silent fallback; a file without any settings gives the defaults of the directories. The readers built on the configuration use the settings current at their creation.",
  ["histories", "configurations"],
  "every sequence of environment changes, file edits, explicit reads and caller mutations, over every subset of settings",
  "Tests read a config twice; stale values only show after particular sequences.",
  ["pyspectral/config.py"],
  [("resolution", "pyspectral/config.py:get_config, _get_env_or_builtin_config_path"), ("merge", "pyspectral/config.py:recursive_dict_update")])

p("C16", "Testing helpers isolate completely and restore everything",
  "Inside the download-forbidding helper no call can reach the network, and inside the mocking helpers all package data come from the fake directories only. "
  "After leaving any nesting of the helpers, normally or through an exception, the configuration environment, patched functions and helper-owned temporary files are exactly as before entering (once the exception has been handled), while directories supplied by the caller are kept. "
  "Inner helpers override outer ones only while they are active.",
  ["histories", "configurations"],
  "every well-nested sequence of entering, using, failing in and leaving the helpers, with and without a previous configuration",
  "Tests use each helper once on the success path.",
  ["pyspectral/testing.py"],
  [("config override", "pyspectral/testing.py:override_config"), ("download guard", "pyspectral/testing.py:forbid_pyspectral_downloads"), ("mocks", "pyspectral/testing.py:mock_pyspectral_downloads, mock_tb_conversion, mock_rsr, mock_rayleigh")])

p("C17", "Switching logging on and off behaves as a clean two-state switch",
  "After logging is switched on at a level, records at or above that level, whatever logger they come from, reach the console exactly once, naming their level and logger, and records below do not, however often and in whatever order logging was switched on, off or to debug before. "
  "After it is switched off nothing reaches the console until it is switched on again. "
  "Asking for a named logger never adds console output and never adds handlers repeatedly.",
  ["histories"],
  "every sequence of switching on (any level), debug, off, logger requests and log calls",
  "Tests switch on once; the off/on cycle and repeated switching are histories.",
  ["pyspectral/utils.py"],
  [("switch", "pyspectral/utils.py:logging_on, logging_off, debug_on"), ("loggers", "pyspectral/utils.py:get_logger")])

p("C18", "Spectral curve utilities return what their definitions say",
  "For every sampled response curve: sorting yields strictly increasing abscissae, keeping each distinct abscissa once with a response that belonged to it; the central wave is the weighted response centroid under the trapezoidal rule; the wave range is the first and last sample whose response exceeds the threshold, given around that centroid. "
  "The full width at half maximum spans the first to last sample with a response of at least half the maximum and is an error when fewer than two exist; the energy bounds are the first abscissa whose cumulative energy reaches the percentage and the last not beyond its complement. "
  "None of them modifies its inputs.",
  ["inputs"],
  "every curve (length, order, duplicates, ties at thresholds), weight, threshold and percentage",
  "Tests use one smooth curve per utility; ties, duplicates and thresholds hit exactly are not sampled.",
  ["pyspectral/utils.py"],
  [("sorting", "pyspectral/utils.py:sort_data"), ("centroid", "pyspectral/utils.py:get_central_wave, get_wave_range"), ("bounds", "pyspectral/utils.py:get_fullwidth_halfmax, get_bounds_integrated_energy")])

p("C19", "Unpacking a downloaded archive never writes outside the data directory",
  "Whatever the downloaded archive contains (parent-directory or absolute member names, symbolic or hard links leading out, device files, members written through links), unpacking it creates or changes nothing outside the destination directory. "
  "An archive with members that lead outside is either refused with an error, and then does not make an outdated directory look up to date, or has those members placed inside the directory. "
  "Harmless nested members are unpacked with their content unchanged.",
  ["inputs", "fault_sequences"],
  "every combination and order of malicious and harmless archive members, for both kinds of archive",
  "Tests serve one well-formed archive.",
  ["pyspectral/utils.py"],
  [("extraction", "pyspectral/utils.py:_download_tarball_and_extract")])

p("C20", "Every raw reader yields its own band's curve, in micrometres",
  "For every instrument reader in rsr_convert_scripts, and for every platform and band it serves, reading the agency's original file gives the samples of that band and detector, "
  "each response at its own wavelength, expressed in micrometres whatever the unit of the raw file (nanometre, Angstrom, metre, micrometre or wavenumber), in ascending wavelength order for an ordered file, "
  "scaled to a fraction or normalised as the reader promises, with fill values left out and nothing but negligible responses dropped. "
  "The converted file, opened by platform and instrument, returns those curves for all of the bands and detectors together with their central wavelengths.",
  ["inputs"],
  "every reader, platform and band, any raw curve: sample order, fill values, percent or fraction, one or several detectors, equal or different abscissae",
  "The readers are not tested at all apart from a few of the package's base classes.",
  ["rsr_convert_scripts", "pyspectral/raw_reader.py", "pyspectral/utils.py"],
  [("readers", "rsr_convert_scripts/*.py:*._load"), ("conversion", "pyspectral/utils.py:convert2hdf5"), ("base class", "pyspectral/raw_reader.py:InstrumentRSR")])

p("C21", "Tools and plots show exactly the responses or spectrum asked for",
  "For every request, find_wavelengths_for_satpy prints, once per requested band (all bands when none is named), the first wavelength, the central wavelength and the last wavelength of the chosen detector's response above the threshold. "
  "plot_rsr saves one plot with one line per detector of the band named or found by wavelength, and composite_rsr_plot one plot in which each platform is shown with the first of the given sensors that it carries and that has data, "
  "the first detector of each selected band appearing exactly once (the band named, the bands within 0.25 micrometre of a wavelength, or all bands of a range, without those excluded), labelled with platform and band unless told otherwise; "
  "platforms whose data are missing or unreadable are left out. SolarIrradianceSpectrum.plot saves the spectrum in the wave space and colour chosen and leaves the plotting settings alone. Responses not above the minimum are left out, and the title, limits and file name given are used.",
  ["inputs"],
  "every combination of platforms, sensors, data present or missing, selection by name, wavelength or range, and options",
  "The tools have no tests.",
  ["bin/find_wavelengths_for_satpy.py", "bin/plot_rsr.py", "bin/composite_rsr_plot.py", "pyspectral/rsr_reader.py", "pyspectral/utils.py"],
  [("composite", "bin/composite_rsr_plot.py:plot_band"), ("single", "bin/plot_rsr.py"), ("solar", "pyspectral/solar.py:SolarIrradianceSpectrum.plot"), ("ranges", "bin/find_wavelengths_for_satpy.py:main"), ("wave range", "pyspectral/utils.py:get_wave_range")])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P))
