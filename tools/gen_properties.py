import json
S='src/sleplet/'
def P(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":[S+f if not f.startswith(('examples','documentation','README','pyproject')) else f for f in files],
       "mechanism":[{"name":n,"where":(S+w if not w.startswith(('examples','documentation','README','pyproject')) else w)} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    a["hook_needed"]=None
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
L=[]
L.append(P("C01","Region inputs resolve to one region kind and the matching Slepian solver",
"For every combination of the four region angles, polar-gap flag and mask name, the region is a polar cap exactly when only the upper colatitude is restricted (longitudes and lower colatitude at their defaults), otherwise a latitude/longitude region when any other angle differs from its default, otherwise the named mask, otherwise construction is refused. The Slepian solver, the pixel mask and the region name selected afterwards always follow that same kind and carry the same angles, gap flag and mask name.",
["inputs"],"all angle quadruples (each equal to, below or above its default), both gap values, any mask name",
"Tests construct a handful of angle combinations; the precedence over all default/non-default combinations, and the agreement of solver, mask and name with it, is a universally quantified table.",
["slepian/region.py","_bool_methods.py","slepian_methods.py","_mask_methods.py"],
[("region kind decision","slepian/region.py"),("polar/lat-lon predicates","_bool_methods.py"),("solver dispatch","slepian_methods.py"),("mask dispatch","_mask_methods.py")],["the Slepian object returned for a region","the mask returned for a region"]))
L.append(P("C02","Invalid parameters are refused, valid ones accepted, whatever route they take",
"Constructing or re-assigning a public object raises for every parameter outside its domain and never for one inside it: longitudes in [0, 2pi], colatitudes in [0, pi], a non-zero polar-cap opening, Slepian order strictly smaller in magnitude than the bandlimit, degree below the bandlimit with order not exceeding degree, rank non-negative and (when the object is built) below the number of basis functions, wavelet scale between 0 and the largest scale the tiling provides. The check of these parameters is the same whether the value arrives as a keyword, by assignment, or through the command-line extra-argument list, whose length must be exactly the number of the class's own parameters.",
["inputs"],"every value of every validated parameter, by every route (constructor, assignment, extra arguments)",
"Boundary values of each bound (equal, one above, one below) across about twenty classes are not enumerated by any test, and few validators are tested at all.",
["slepian/region.py","slepian/slepian_polar_cap.py","slepian/_slepian_decomposition.py","meshes/_mesh_slepian_decomposition.py","functions/spherical_harmonic.py","functions/slepian.py","functions/ridgelets.py","functions/axisymmetric_wavelets.py","functions/slepian_wavelets.py","meshes/mesh_basis_functions.py","meshes/mesh_slepian_functions.py","meshes/mesh_slepian_wavelets.py","meshes/mesh_slepian_wavelet_coefficients.py","_validation.py"],
[("field validators on each parameter","functions/*.py, meshes/*.py, slepian/*.py"),("validate-on-assignment configuration","_validation.py"),("extra-argument unpacking","functions/*.py")]))
L.append(P("C03","A cached result's file name fixes everything the result depends on",
"Whenever two computations would store or look up results under the same file name, every input that can influence the stored numbers (bandlimit, region kind, angles, polar gap, mask name, mesh, number of basis functions) is the same up to the documented whole-degree rounding of angles. Changing any such input therefore never serves a result computed for different inputs.",
["inputs","histories"],"all pairs of parameter sets and all histories of earlier runs sharing the data directory",
"A stale-cache hit needs two runs with chosen colliding parameters in one data directory; tests start from whatever cache exists and never run colliding pairs.",
["slepian/slepian_polar_cap.py","slepian/slepian_limit_lat_lon.py","slepian/slepian_arbitrary.py","slepian/region.py","_mask_methods.py","_mesh_methods.py","meshes/mesh_slepian.py"],
[("cache name construction","slepian/*.py, _mesh_methods.py, meshes/mesh_slepian.py, _mask_methods.py"),("region name ending","slepian/region.py")]))
L.append(P("C04","What is written to the cache is what a later run reads back",
"Every eigensolution, mask or basis written to the data directory is written under exactly the name, and in exactly the directory, in which a later run looks it up, and eigenvalues, eigenvectors and orders are never exchanged. The stored arrays are the ones just returned to the caller, shortened at most to the leading Shannon-number rows where the library documents that truncation (polar caps with bandlimit up to 16 keep all rows).",
["histories","inputs"],"every save/load pair and every order of a computing run followed by a loading run",
"The tests either always load or always compute within one run; a mismatch between the two sides appears only in the second run with other parameters.",
["slepian/slepian_polar_cap.py","slepian/slepian_limit_lat_lon.py","slepian/slepian_arbitrary.py","_mask_methods.py","_mesh_methods.py","meshes/mesh_slepian.py","_data/setup_pooch.py"],
[("save after solve","slepian/*.py"),("load before solve","slepian/*.py"),("lookup directory","_data/setup_pooch.py")],["files in the user data directory"]))
L.append(P("C05","Data lookup order: published file, then local file, then recompute",
"A requested data file that is part of the published data set is always fetched from it, otherwise a file of that exact name in the local data directory is used, otherwise the lookup reports absence and the library recomputes and stores the result rather than failing. The published registry is loaded once before any lookup, and a failed registry download leaves every later lookup in the same state as the first.",
["histories","fault_sequences","inputs"],"all file names, registry contents, local directory contents, and network failures on any call",
"The tests cannot make the network fail between calls, nor present every combination of published/local presence.",
["_data/setup_pooch.py","slepian/slepian_polar_cap.py","slepian/slepian_limit_lat_lon.py","slepian/slepian_arbitrary.py","_mask_methods.py","_mesh_methods.py","meshes/mesh_slepian.py"],
[("lookup function and lazy registry decorator","_data/setup_pooch.py"),("miss handling around array loads","slepian/*.py, _mesh_methods.py")],None,
[("registry singleton","whether the published registry has been loaded","_data/setup_pooch.py")]))
L.append(P("C06","Parallel assembly gives the serial matrix for any number of workers",
"For every matrix size and every worker count the index range is split so that each index is handled exactly once, each worker writes only matrix entries belonging to its own indices into the shared result, and the result is read only after all workers have finished. A failure inside any worker surfaces to the caller instead of leaving a partially filled matrix to be solved and cached.",
["schedules","inputs","fault_sequences"],"all sizes, all worker counts, all interleavings of workers, failure of any worker at any index",
"Interleavings and worker failures cannot be scheduled from the tests, and sizes/worker counts are sampled at one or two points.",
["_parallel_methods.py","slepian/slepian_arbitrary.py","slepian/slepian_polar_cap.py","meshes/mesh_slepian.py"],
[("index splitting","_parallel_methods.py"),("thread pool map and join","slepian/slepian_arbitrary.py, slepian/slepian_polar_cap.py, meshes/mesh_slepian.py"),("row-disjoint writes","same files")]))
L.append(P("C07","Every shared-memory block is released exactly once, after its last use",
"Each shared-memory block created while assembling a matrix is closed and unlinked exactly once before the assembling call returns, every worker attachment is closed by the worker that made it, and no array backed by a block is used after the block is closed or returned to the caller. Blocks are sized for, and attached with, the shape and type of the array they hold.",
["schedules","inputs"],"all completing executions of every parallel assembly, every worker and chunk",
"Leaks and use-after-close do not change the numbers a test looks at; they show up as exhausted system memory or crashes elsewhere.",
["_parallel_methods.py","slepian/slepian_arbitrary.py","slepian/slepian_polar_cap.py","meshes/mesh_slepian.py"],
[("create/attach/close/unlink helpers","_parallel_methods.py"),("ordering inside the assembly functions","slepian/slepian_arbitrary.py, slepian/slepian_polar_cap.py, meshes/mesh_slepian.py")]))
L.append(P("C08","Randomised results are reproducible",
"Every random quantity the library draws comes from a generator that is either passed in by the caller or freshly created from the library's one fixed seed inside the same call, so the same call always yields the same result regardless of what ran before. No result depends on global random state, time, process identity, hash order or an unseeded iterative solver.",
["histories","inputs"],"all call histories and all public entry points",
"A test observes one process history; dependence on earlier calls or on an entropy-seeded solver differs only between runs.",
["noise.py","_data/create_wmap_flm.py","harmonic_methods.py","functions/harmonic_gaussian.py","functions/slepian_dirac_delta.py","_mesh_methods.py","_vars.py"],
[("fixed seed constant","_vars.py"),("generator creation sites","noise.py, _data/create_wmap_flm.py")]))
L.append(P("C09","Library calls never modify the arrays and objects handed to them",
"No public transform, convolution, wavelet, noise, thresholding or plotting-preparation call changes the contents of an array passed to it or held by an object passed to it. Coefficients, wavelets and clean (un-noised) copies stored on an object are unaffected by later use of values returned from it to the library.",
["inputs","histories"],"every public function and every array argument",
"Tests check returned values, not that the inputs are bit-for-bit unchanged afterwards, and aliasing depends on which code path was taken.",
["noise.py","wavelet_methods.py","slepian_methods.py","harmonic_methods.py","_convolution_methods.py","plot_methods.py","functions/flm.py","functions/fp.py","meshes/mesh_harmonic_coefficients.py","meshes/mesh_slepian_coefficients.py"],
[("copies before in-place updates","noise.py, functions/flm.py, functions/fp.py")]))
L.append(P("C10","One sampling grid is used everywhere on the sphere",
"Every spherical transform, sample-position query, sample-shape query and angle-to-index conversion the library performs uses the same sampling scheme, the one defined as the library's sampling scheme. Fields, masks, integration weights and plotted grids produced by one part can therefore always be combined with those of any other part at the same bandlimit.",
["programs","inputs"],"every call site reachable from the public interface",
"The third-party default scheme has a different grid that only differs visibly for some shapes; a missing argument at an untested call site is invisible to the tests.",
["harmonic_methods.py","slepian_methods.py","_mask_methods.py","_integration_methods.py","noise.py","plot_methods.py","plotting/_create_plot_sphere.py","slepian/_slepian_decomposition.py","_vars.py"],
[("single scheme constant passed at every call","_vars.py")]))
L.append(P("C11","Spin and reality are the same on both sides of every transform round trip",
"Whenever a field is synthesised from coefficients or analysed into coefficients on behalf of an object or caller that states a spin and a reality, both the inverse and the forward transform of that path use that spin and reality. In particular masking, boosting, plotting and amplitude computation of a spin-weighted or real function never silently fall back to spin zero or complex.",
["inputs"],"all spins, both reality values, every path that synthesises or analyses a field",
"Existing tests only use spin zero; with spin zero and complex data the wrong flags give the same numbers.",
["harmonic_methods.py","_mask_methods.py","plot_methods.py","plotting/_create_plot_sphere.py","_scripts/plotting_on_sphere.py","functions/*.py"],
[("explicit spin/reality keywords threaded through","harmonic_methods.py, plot_methods.py, _mask_methods.py")]))
L.append(P("C12","Slepian coefficients on the sphere are projections onto the Slepian basis",
"For every rank, the Slepian coefficient equals the inner product of the signal with the conjugated Slepian function of that rank: as a harmonic sum when harmonic coefficients are given, else as a whole-sphere integral when only the field is given, else (field and region mask) as the masked integral divided by that rank's eigenvalue. When several inputs are supplied harmonic coefficients take precedence over the field, and supplying none is an error.",
["inputs"],"all ranks, all signals, all combinations of supplied inputs",
"Tests compare the three routes for a couple of ranks on one region with tolerances; the exact form for every rank and input combination is not covered.",
["slepian/_slepian_decomposition.py","slepian_methods.py","_integration_methods.py"],
[("method selection and three formulae","slepian/_slepian_decomposition.py"),("integration helpers","_integration_methods.py")]))
L.append(P("C13","Mesh transforms and mesh Slepian coefficients are consistent projections",
"On a mesh, analysis is the inner product with each (unit-norm) basis function, synthesis is the matching weighted sum, and the Slepian coefficient of a rank is the corresponding harmonic, whole-mesh or masked-and-eigenvalue-scaled inner product with the Slepian function of that rank. Harmonic coefficients take precedence over the field, the mask flag selects the regional form, and supplying neither is an error.",
["inputs"],"all meshes, all signals, all ranks and input combinations",
"Mesh data are absent from most test environments and only two meshes are sampled; the algebraic form is what must hold for all of them.",
["harmonic_methods.py","_integration_methods.py","_mesh_methods.py","meshes/_mesh_slepian_decomposition.py","slepian_methods.py"],
[("mesh forward/inverse","harmonic_methods.py"),("mesh decomposition","meshes/_mesh_slepian_decomposition.py"),("basis normalisation","_mesh_methods.py")]))
L.append(P("C14","Slepian functions come sorted by concentration with values and vectors paired",
"Every Slepian construction returns eigenvalues in descending order, with row p of the eigenvectors (and the p-th order for polar caps) belonging to the p-th eigenvalue. Each row is the eigenvector of the concentration matrix, conjugated consistently with the harmonic convention and modified only by a unit-modulus factor.",
["inputs"],"all regions, bandlimits and meshes",
"Sorting one array and not its companion gives plausible numbers that the existing spot checks on the leading function do not notice.",
["slepian/slepian_polar_cap.py","slepian/slepian_limit_lat_lon.py","_slepian_arbitrary_methods.py","meshes/mesh_slepian.py"],
[("argsort-descending with a shared permutation","slepian/slepian_polar_cap.py, slepian/slepian_limit_lat_lon.py, _slepian_arbitrary_methods.py, meshes/mesh_slepian.py")]))
L.append(P("C15","The Shannon number is region area times bandlimit squared over 4 pi",
"For each region the Shannon number is the rounded product of the region's area (of the very region used for the mask and matrix, including both caps of a polar gap) and the squared bandlimit over 4 pi, and on a mesh the region's share of vertices times the number of basis functions. Synthesis, analysis, translation and wavelet operations keep exactly the leading Shannon-number of Slepian coefficients unless the caller asks for another number.",
["inputs"],"all regions, bandlimits and meshes",
"Tests check the number for one or two regions and never for a polar gap; truncation length mismatches only matter past the sampled ranks.",
["slepian/slepian_functions.py","slepian/slepian_polar_cap.py","slepian/slepian_limit_lat_lon.py","slepian/slepian_arbitrary.py","_slepian_arbitrary_methods.py","slepian_methods.py"],
[("area formulae","slepian/*.py"),("truncation","slepian_methods.py")]))
L.append(P("C16","Wavelet analysis and synthesis are adjoint and scales are selected correctly",
"Axisymmetric and Slepian wavelet analysis multiplies the signal (linearly or conjugate-linearly as documented) by each wavelet, and the matching synthesis applies the conjugate weight with the same normalisation, so synthesis after analysis returns every coefficient multiplied by the sum over scales of the squared wavelet modulus. Selecting no scale yields the scaling function and selecting scale j yields the j-th wavelet, never a neighbour.",
["inputs"],"all signals, wavelet families, bandlimits, tiling parameters and scales",
"Round-trip tests use real tilings, real-ish signals and single parameter sets, under which wrong conjugation, normalisation at one degree, or scale offsets can cancel.",
["wavelet_methods.py","_convolution_methods.py","functions/axisymmetric_wavelets.py","functions/slepian_wavelets.py","functions/ridgelets.py","functions/*wavelet_coefficients*.py","meshes/mesh_slepian_wavelets.py","meshes/mesh_slepian_wavelet_coefficients.py"],
[("forward/inverse pairs","wavelet_methods.py"),("scale index j+1","functions/*.py, meshes/*.py")]))
L.append(P("C17","Sifting convolution and translation follow their definition",
"Convolving two coefficient sets multiplies the first, coefficient by coefficient, with the complex conjugate of the second (cut to the Shannon number in the Slepian case), and translating by (alpha, beta) convolves the coefficients with the conjugated basis functions evaluated at longitude alpha and colatitude beta. Only the Dirac delta bypasses the convolution, and the result of a convolution (hence of every translation that convolves) is never treated as real.",
["inputs"],"all coefficient sets, angles, bandlimits and Slepian truncations",
"Argument order, conjugation side and longitude/colatitude swaps agree on the symmetric inputs used by the tests.",
["_convolution_methods.py","functions/coefficients.py","functions/flm.py","functions/fp.py","slepian_methods.py"],
[("sifting convolution","_convolution_methods.py"),("translate/convolve","functions/coefficients.py"),("basis at omega prime","functions/flm.py, slepian_methods.py")]))
L.append(P("C18","Added noise has the requested level and leaves the clean signal recoverable",
"For a requested input signal-to-noise ratio the noise standard deviation is the square root of 10^(-SNR/10) times signal power divided by the number of coefficients used, on the sphere, in Slepian space and on meshes alike. The noised coefficients are exactly the clean ones plus the noise, the clean ones are kept, the reported ratio is 10 log10 of signal power over noise power, and requesting no noise changes nothing while requesting 0 dB does add noise.",
["inputs"],"all signals, SNR values and function kinds",
"Tests check one SNR value with a loose statistical tolerance for one function family.",
["noise.py","functions/flm.py","functions/fp.py","meshes/mesh_harmonic_coefficients.py","meshes/mesh_slepian_coefficients.py","functions/noise_earth.py"],
[("sigma and power formulae","noise.py"),("noise addition","functions/flm.py, functions/fp.py, meshes/*.py")]))
L.append(P("C19","Denoising zeroes exactly the values below the threshold, scale by scale",
"Hard thresholding sets a field value to zero exactly when its magnitude is below the chosen multiple of that scale's noise level and otherwise keeps it unchanged. Each wavelet scale is thresholded with its own noise level, every scale is processed exactly once, and in the harmonic case the scaling function is returned untouched.",
["inputs"],"all coefficient arrays, noise levels and thresholds",
"Off-by-one pairing between scales and noise levels, or touching the scaling function, still yields a plausible denoised map.",
["noise.py"],[("thresholding loops","noise.py")]))
L.append(P("C20","Real signals, and only real signals, have conjugate-symmetric coefficients",
"Coefficients the library builds for real fields (Earth topography, the CMB simulation, harmonic noise) satisfy f(l,-m) = (-1)^m conj f(l,m) for every degree and order below the bandlimit, with real m = 0 terms where generated. A function is flagged real only if its coefficients have that symmetry, and every complex, translated or Slepian function is not.",
["inputs"],"all degrees, orders, bandlimits and function classes",
"A sign error for odd orders or a wrong flag affects only some coefficients and is masked when the test field is complex or zonal.",
["_data/create_earth_flm.py","_data/create_wmap_flm.py","noise.py","functions/*.py"],
[("negative-order fill loops","_data/create_earth_flm.py, _data/create_wmap_flm.py, noise.py"),("reality flags","functions/*.py")]))
L.append(P("C21","Masks mark exactly the region they describe",
"A polar-cap mask marks exactly the samples with colatitude up to the opening angle (plus the mirrored southern cap when the gap is enabled), a latitude/longitude mask exactly the closed angular box, a continent mask exactly the land samples within the fixed range of the rotated pole, and a mesh mask exactly the vertices in the closed coordinate box. Masking a signal zeroes it outside and leaves it unchanged inside before it is bandlimited again, and a mesh face is in the region only if all its vertices are.",
["inputs"],"all grids, bandlimits, regions and meshes",
"Boundary samples and the second cap are not asserted; tests look at mask shape or at one angle set.",
["_mask_methods.py","_mesh_methods.py"],
[("mask comparisons","_mask_methods.py"),("mesh region box","_mesh_methods.py, _mask_methods.py")]))
L.append(P("C22","The concentration matrix is completely and Hermitianly assembled",
"Every entry of the region's concentration matrix is the integral over the region of one basis function times the conjugate of the other: entries not integrated directly are filled from the conjugate-order relation with the correct parity or from Hermitian symmetry, no entry is left at its initial zero or written from the wrong pair, and the finished matrix equals its own conjugate transpose. This holds for arbitrary, polar-cap and mesh regions.",
["inputs"],"all index pairs for all bandlimits and meshes",
"A missing or wrongly-signed entry class (for instance odd orders against m = 0) changes eigenvalues slightly and only for asymmetric regions.",
["slepian/slepian_arbitrary.py","slepian/slepian_polar_cap.py","meshes/mesh_slepian.py","_array_methods.py","_integration_methods.py"],
[("triangle fill and conjugate relation","slepian/slepian_arbitrary.py, slepian/slepian_polar_cap.py, meshes/mesh_slepian.py"),("upper triangle from lower","_array_methods.py")]))
L.append(P("C23","Analytic signals have their defined coefficients",
"The closed-form signals (Dirac delta, Gaussian, harmonic Gaussian, spherical harmonic, identity, squashed and elongated Gaussian, axisymmetric wavelets) have exactly the coefficients or pixel values of their published definitions for every parameter, with zero where the definition is zero. Signals defined in pixel space are bandlimited through a forward transform at the same bandlimit before use.",
["inputs"],"all bandlimits and parameter values",
"Tests touch only a few functions at one bandlimit and compare derived quantities rather than each coefficient.",
["functions/dirac_delta.py","functions/gaussian.py","functions/harmonic_gaussian.py","functions/spherical_harmonic.py","functions/identity.py","functions/squashed_gaussian.py","functions/elongated_gaussian.py","wavelet_methods.py","harmonic_methods.py"],
[("coefficient formulae","functions/*.py"),("grid function to coefficients","harmonic_methods.py")]))
L.append(P("C24","Longitude/colatitude roles and angle units are never mixed",
"Wherever angles pass between functions, longitudes reach longitude parameters and colatitudes reach colatitude parameters, degrees (command line, environment, fixed rotations) are converted to radians exactly once before use, and multiples of pi are multiplied by pi exactly once. The angle used to compute a translated or rotated map is the same one that is marked on the plot.",
["inputs","programs"],"all angle values and all paths from user input to numerical use",
"Swapped or unconverted angles give valid-looking maps; tests use symmetric or zero angles.",
["_mask_methods.py","harmonic_methods.py","plot_methods.py","_scripts/plotting_on_sphere.py","functions/flm.py","slepian_methods.py","_smoothing.py","slepian/*.py"],
[("deg2rad at input","_mask_methods.py, harmonic_methods.py"),("pi fractions","plot_methods.py, _scripts/plotting_on_sphere.py")]))
L.append(P("C25","Every registered signal and mesh is reachable and options take effect",
"Every public signal and mesh class is offered by the command line under its own snake-case name and that name builds exactly that class, every offered choice is handled, and every option the user gives reaches the computation it names (with its documented default when omitted). The registries, the package exports and the choices agree.",
["configurations","inputs"],"all command-line choices, all public classes, all options",
"The command-line programs have no tests at all; a missing entry or dropped option only affects that choice.",
["_class_lists.py","_scripts/plotting_on_sphere.py","_scripts/plotting_on_mesh.py","functions/__init__.py","meshes/__init__.py","_string_methods.py"],
[("class lists","_class_lists.py"),("argument parsers and main","_scripts/*.py")]))
L.append(P("C26","Plots show the requested part of the field, correctly scaled and closed",
"The plotted values are the requested real, imaginary, absolute or real-plus-imaginary part of the field, rescaled linearly to [0, 1] only when normalisation is requested, set to the unseen marker exactly outside the region when a region is given, and closed by repeating the first longitude column. The file name records resolution, plot type and normalisation exactly when they apply.",
["inputs"],"all fields, plot types, normalisation, region and upsampling settings",
"Tests check shapes for one configuration and never the values outside the region or at the seam.",
["plot_methods.py","plotting/_create_plot_sphere.py","plotting/_create_plot_mesh.py","_plotly_methods.py"],
[("plot preparation","plotting/*.py, plot_methods.py")]))
L.append(P("C27","Upsampled resolution never falls below the bandlimit",
"For every bandlimit the plotting resolution is the bandlimit times a power of two given by the documented band (never smaller than the bandlimit), is defined for every positive bandlimit, and the upsampled field carries exactly the original coefficients padded with zeros.",
["inputs"],"all positive bandlimits",
"Tests sample one bandlimit per band.",
["plot_methods.py","harmonic_methods.py"],
[("resolution table","plot_methods.py"),("zero padding","harmonic_methods.py")]))
L.append(P("C28","Different settings give different result names",
"The descriptive name of a signal (and of its plot file) differs whenever the class, any numeric parameter, the scale (including none), noise, smoothing, region, bandlimit, rotation/translation angle or view of the Earth differs. Numeric parameters are rendered as an exact fraction.",
["inputs"],"all pairs of settings",
"Tests compare a few rendered strings and never check that two different values cannot share a name.",
["_string_methods.py","functions/*.py","meshes/*.py","_scripts/*.py"],
[("fraction rendering","_string_methods.py"),("name construction","functions/*.py, meshes/*.py")]))
L.append(P("C29","Bundled mesh configurations are complete and consistent",
"Every bundled mesh has a configuration that provides every setting the library reads for it, names a mesh file that is bundled, and describes a non-empty coordinate box (each minimum not above its maximum). Every mesh offered to the user has such a configuration.",
["configurations"],"all bundled meshes and all settings read",
"Tests load two of the meshes; a missing key or file shows only when that mesh is selected.",
["_data/meshes_regions_*.toml","meshes/mesh.py","_mesh_methods.py","_class_lists.py"],
[("configuration files","_data/"),("settings read at construction","meshes/mesh.py, _mesh_methods.py")]))
L.append(P("C30","Region-bound data sets accept only their own region and use its data",
"Slepian signals tied to a continent are built only for that continent's mask and are refused with an error for any other region, and their signal comes from the matching continent-centred data rotated to that continent with the same bandlimit, region, noise and smoothing. The Africa and South America variants differ only in the continent.",
["inputs"],"all regions and both continents",
"Data for these classes are not available offline, so no test builds them with a wrong region.",
["functions/slepian_africa.py","functions/slepian_south_america.py","functions/slepian_noise_africa.py","functions/slepian_noise_south_america.py","functions/slepian_wavelet_coefficients_africa.py","functions/slepian_wavelet_coefficients_south_america.py","functions/africa.py","functions/south_america.py","functions/axisymmetric_wavelet_coefficients_africa.py","functions/axisymmetric_wavelet_coefficients_south_america.py"],
[("region check and data source","functions/slepian_*.py")]))
L.append(P("C31","Documented names and examples exist in the code",
"Every attribute, function, class, keyword, command and command option that the bundled examples and documentation use is defined by the library with that name and arity. Following the documentation never fails with an unknown name or argument.",
["programs"],"all references in bundled examples and documentation",
"Examples and documentation are not executed by the test suite.",
["examples/","documentation/","README.md","__init__.py"],
[("public exports","__init__.py"),("entry points","pyproject.toml")]))
L.append(P("C32","Slepian harmonic bases are orthonormal and quadrature is exact to rounding",
"For every region and bandlimit the computed Slepian functions are orthonormal over the sphere and orthogonal over the region to floating-point accuracy.",
["inputs"],"all regions and bandlimits","Needs floating-point error bounds of eigen-solvers and quadrature for all sizes.",
["slepian/*.py","_integration_methods.py"],[("eigen-decomposition","slepian/*.py")]))
L.append(P("C33","Closed-form coupling integrals and Wigner symbols are numerically correct",
"The closed-form matrix for latitude/longitude regions and the Wigner-3j sums for polar caps agree with the exact integrals they stand for, to floating-point accuracy, for every degree and order.",
["inputs"],"all degrees, orders and angles","Analytic identities plus floating-point cancellation over unbounded degrees.",
["slepian/slepian_limit_lat_lon.py","slepian/slepian_polar_cap.py"],[("closed forms","slepian/slepian_limit_lat_lon.py, slepian/slepian_polar_cap.py")]))
L.append(P("C34","Denoising improves the signal-to-noise ratio",
"For signals concentrated in the region, hard thresholding of noised wavelet coefficients yields a higher signal-to-noise ratio than the noised input.",
["inputs"],"all signals and noise levels in the supported range","A statistical statement about data values.",
["noise.py","examples/wavelets/"],[("thresholding","noise.py")]))
with open('/verif/properties.jsonl','w') as f:
    for p in L:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+"\n")
print(len(L))
