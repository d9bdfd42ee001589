import json,subprocess
log={l.split(" ",1)[1]:l.split(" ",1)[0] for l in subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()}
F=[
("C09","fix: accept the mapped argument as a keyword in use_map_blocks_on","blackbody(wave, temp=dask_array): the decorator looked for the mapped argument among the positional ones only and raised IndexError"),
("C09","fix: inverse Planck function for plain Python scalars and integer radiances","blackbody_rad2temp / blackbody_wn_rad2temp of a Python float or an integer array raised or divided by zero"),
("C03","fix: never leave a partially extracted archive looking up-to-date","an interruption after the version member was unpacked left a directory with missing data files that looked current"),
("C01","fix: create the destination directory when downloading the RSR data","download_rsr(dest_dir=<not existing>) failed with FileNotFoundError"),
("C08","fix: keep the central wavelength when converting responses to wavenumbers","the converted responses had lost central_wavelength: band identification and radiance conversion in wavenumber space raised KeyError (also C04, C10)"),
("C08","fix: response integral after conversion to wavenumbers","RelativeSpectralResponse.integral after convert() integrated over the deleted wavelengths (KeyError)"),
("C04","fix: write the tb to radiance look-up table atomically","a creation killed or overlapping while writing left a truncated table that later calculators loaded (BadZipFile)"),
("C04","fix: separate tb to radiance look-up tables for other detectors and wave spaces","calculators for another detector or wave space shared one cached table and got each other's radiances"),
("C05","fix: store the wavelengths, not the responses, when converting RSR data to HDF5","multi-detector conversion stored the responses in the wavelength dataset"),
("C05","fix: write converted RSR data to the file name the reader looks for","convert2hdf5 for an instrument with '/' in its name wrote a file name the reader never looks for"),
("C05","fix: reading RSR files without sensor name for platforms with several instruments","a file without sensor attribute of a platform with several instruments gave a list as instrument"),
("C07","fix: accept adjusted instrument names on platforms with several instruments","check_and_adjust_instrument_name refused the names it returns itself on platforms with a list of instruments"),
("C09","fix: black-body radiance for integer wavenumbers","32 bit integer wavenumbers overflowed: blackbody_wn(np.array([90909], dtype='int32'), 300.) was wrong"),
("C10","fix: tb to radiance look-up for temperatures far outside the table and integer input","temperatures above 32767*resolution wrapped around as 16 bit indices"),
("C10","fix: SEVIRI coefficients of the water vapour bands under their translated names","SeviriRadTbConverter with WV6.2/WV7.3 under their translated names raised KeyError"),
("C10","fix: brightness temperatures from radiances per wavenumber","radiance2tb in wavenumber space used the wavelength form of Planck's law (also C11)"),
("C11","fix: derive the in-band solar flux for the detector of the calculator","the derived flux was always that of detector 1"),
("C11","fix: unit of the derived in-band solar flux in wavenumber space","the derived flux in wavenumber space was mixed with radiances in another unit"),
("C11","fix: no radiance from the look-up table for missing temperatures","a NaN temperature indexed an arbitrary table entry"),
("C11","fix: 3.x micron reflectance of masked pixels and for integer input","masked pixels came out unmasked or with data of the fill value; integer input raised"),
("C12","fix: Rayleigh correction of numpy arrays outside the wavelength range without red band","numpy input, wavelength outside the table, redband=None raised AttributeError"),
("C12","fix: Rayleigh correction for integer angles or red band","integer angles or red band raised a casting error"),
("C12","fix: Rayleigh correction for differently chunked arrays","angles and red band with different chunks, or mixed numpy/dask, raised"),
("C19","fix: remove the version marker when a later member of its name is refused","an archive [marker as a plain file, marker as a link leading out] was refused but left the marker in place, so the directory looked current"),
("C12","fix: Rayleigh correction of arrays in non-native byte order","get_reflectance of big-endian arrays (dtype '>f8') raised ValueError in the interpolation"),
("C13","fix: viewing angle correction of plain numpy arrays and any number of dimensions","viewzen_corr of plain (unmasked) numpy arrays and of arrays that are not two-dimensional raised"),
("C13","fix: keep the mask in the viewing angle correction of chunked arrays","masked chunked arrays lost their mask"),
("C15","fix: accept configuration files without any settings","an empty or comments-only configuration file raised AttributeError"),
("C17","fix: logging to the console again after it was turned off","logging_on() after logging_off() never wrote to the console again"),
("C18","fix: full width at half maximum of responses that do not peak at one","get_fullwidth_halfmax compared with 0.5, not with half of the maximum, e.g. for responses in percent"),
("C16","fix: fake Rayleigh LUTs in a directory given by a relative path","mock_rayleigh(rayleigh_dir=Path('relative')) made dangling links: the fake tables could not be read"),
("C16","fix: create the tb to radiance directory of the mocked conversion","mock_tb_conversion(tb2rad_dir=<new>, rsr_dir=<other>) did not create tb2rad_dir: Calculator failed with FileNotFoundError"),
("C20","fix: read the columns of the raw response files by name","the AMI, AVHRR, COCTS, MERSI-2 and VIRR readers raised TypeError on every raw file (genfromtxt with names and unpack gives a list)"),
("C20","fix: VIRR reader for platforms with several instruments","VirrRSR(band, 'FY-3B'|'FY-3C') raised TypeError: the instrument was a list"),
("C20","fix: compare the wavelengths of the detectors when converting VIIRS and METimage","converting VIIRS with several detectors raised AttributeError (np.alltrue)"),
("C20","fix: store the band names when converting the AHI responses","converting the AHI responses raised TypeError (dict view as attribute)"),
("C20","fix: convert the SEVIRI channels with one response per satellite","converting SEVIRI raised IndexError at the first channel without a '95' response"),
("C20","fix: sheets of the Landsat OLI bands 6 to 9","OliRSR('B6') returned the cirrus band, B7 SWIR1, B8 SWIR2 and B9 the panchromatic band"),
("C20","fix: read the FY-3B MERSI-1 bands 8 to 20 from their own columns","Mersi1FY3ABRSR('ch8', 'FY-3B') returned the column of band 4, and bands 9 to 20 the column of the band before"),
("C21","fix: file name of the plot for sensors with a slash in their name","plot_rsr.py NOAA-19 avhrr/3 -b ch1 could not save its plot"),
("C21","fix: composite plot with a platform that carries none of the sensors","composite_rsr_plot.py -p GOES-16 NOAA-19 -s abi -b ch2 plotted GOES-16 twice; NameError when the first platform has none of the sensors"),
("C21","fix: leave out the excluded bands when plotting by wavelength","composite_rsr_plot.py -w ignored --exclude_bandnames"),
("C21","fix: plot the solar spectrum without a LaTeX installation","SolarIrradianceSpectrum().plot('x.png') raised KeyError (text.latex.unicode)"),
]
out=[]
for p,s,w in F:
    out.append({"property":p,"fixed":f"fixed: property={p} {log[s]} {w}"})
miss=[s for s in log if s.startswith("fix:") and s not in {f[1] for f in F}]
print("missing:",miss)
json.dump({"findings":out},open("/verif/known_findings.json","w"),indent=1)
