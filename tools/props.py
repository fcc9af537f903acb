H2 = 'include/coeff_matrix_2d.hpp'
HS = 'include/coeff_matrix_storage.hpp'
TOT = ' Tests sample a few sizes; the statement quantifies over every admissible size and entry.'
prop('P01', 'Coefficient storage maps are exact, gap-free and overlap-free',
     'For every storage layout and every admissible size, distinct stored entries of a coefficient matrix occupy distinct positions of a buffer whose size is exactly the number of stored entries. '
     'Walking the buffer row by row (or column by column) through the slice interface visits exactly the stored entries of that row or column, in order, and agrees with direct (row, column) access. '
     'The reported numbers of rows, columns, slices and elements agree with the dimensions the layout was given.',
     ['inputs'], 'all dimensions (rows, cols >= 0; cols <= rows for trapezoids; square for triangles) and all entries of every layout',
     'Index arithmetic is quadratic with min() terms; an error can show only for particular aspect ratios or for the last row/column.' + TOT,
     [HS], [('StorageImplementation<...>::index/slice/num_elements/num_slices', HS)],
     VF, 'Decides, for symbolic dimensions, that index(r,c) equals slice start plus offset, that slices are contiguous, start at 0 and end at the buffer size. Assumes no int overflow; trusts clang front end, LLVM inlining/SROA and the Python engine.')
prop('P02', 'Matrix buffers are owned once, released once, never accessed out of bounds',
     'After any construction, copy, move, assignment (including from itself), swap, resize or destruction of a coefficient matrix, every buffer ever allocated is either owned by exactly one live matrix or has been released exactly once with the matching form of delete. '
     'No operation touches memory outside the buffer, or a released buffer. The number of elements never exceeds the recorded capacity, and the recorded capacity never exceeds what was allocated.',
     ['inputs', 'histories'], 'every operation from every state satisfying the class invariant (hence every history), for every layout and size',
     'Leaks, double releases and one-past-the-end accesses stay silent in unit tests and need particular operation sequences, e.g. shrink then grow, self-assignment, or move onto a non-empty target.',
     [H2, HS], [('CoeffMatrix2D constructors, assignment operators, resize, cresize, swap, destructor', H2)],
     'inductive ownership/typestate analysis over value-flow events of each operation, with case split on branch conditions; bounds by the index-map lemma of P01',
     'Inductive: entry states satisfy the invariant, exits must re-establish it. Assumes allocation succeeds and distinct live objects hold distinct buffers. Trusts front end, LLVM cleanup passes, engine.')
prop('P03', 'Matrix arithmetic and copies act entry by entry on exactly the stored part',
     'Copying, moving, swapping, filling, scaling, adding, adding a scaled matrix, evaluating any lazy sum, and the reduced-size sum views give, at every stored entry of the result, exactly the value the formula gives for the corresponding entries of the operands, whatever their layouts\' padding. '
     'Entries outside a reduced view are unchanged, operands that are only read are unchanged, the result has the specified dimensions, and growing or shrinking with contents preserved keeps every entry common to both sizes.',
     ['inputs'], 'every stored entry, every size, every layout, every scalar, including aliased operands',
     'An off-by-one loop bound or a wrong stride affects only some shapes or the last entries; unit tests use a handful of small sizes.',
     [H2], [('CoeffMatrix2D operators, expression templates, cresize, element accessors', H2)],
     VF, 'The value of a symbolic entry (r,c) after each operation is computed in closed form from all stores and compared with the specified expression over operand entries, in every branch case. Element values are treated as exact reals.')
HK = 'include/stokes_coefficients.hpp'
LK = 'src/lib/stokes_coefficients.cpp'
prop('P04', 'Copies, moves and resizes of a geopotential set carry its complete state',
     'A copied, moved, assigned or swapped set of Stokes coefficients has the same degree, order, gravitational constant, reference radius, normalization flag and every C(n,m), S(n,m) as its source; a copy is independent of its source and self-assignment changes nothing. '
     'Every constructor and resize gives the requested degree and order with storage for all of them, a contents-preserving resize keeps every coefficient common to both sizes, and shrinking keeps all remaining coefficients and fails (changing nothing) when asked to grow. '
     'Element access by degree and order, the scalar accessors and J2 = -C(2,0) refer to the right members.',
     ['inputs', 'histories'], 'every operation from every reachable state, all degrees and orders, all coefficients',
     'State is spread over five scalars and two matrices; a member missed in one special member function shows only when later code reads it from the copy.' + TOT,
     [HK, LK], [('StokesCoeffs special members, resize, cresize, shrink_dimensions, accessors', HK), ('swap', LK)],
     VF, 'Inductive over the class invariant 0<=order<=degree, storage covers degree. Default-constructed (never dimensioned) sets are outside the statement on storage.')
prop('P05', 'Adding, clearing and scaling geopotential sets act on exactly the right terms',
     'Adding a set of smaller or equal degree and order adds each of its C(n,m), S(n,m) to the matching term and leaves all other terms and all scalars unchanged; adding a set that is larger in degree or order is reported as an error before anything is modified. '
     'Clearing sets every coefficient to zero and scaling multiplies every coefficient by the factor, leaving scalars unchanged.',
     ['inputs'], 'all degrees and orders of both operands, all coefficient values, adding a set to itself',
     'Mixed degree/order combinations (order smaller than degree, addend of higher order but lower degree) are rarely sampled.' + TOT,
     [LK, HK], [('StokesCoeffs::operator+=', LK), ('StokesCoeffs::clear, scale', HK)],
     VF, 'Value of each symbolic coefficient after the call compared with the specification; control-flow feasibility of the error exit and of stores under the negated precondition. Values are exact reals.')
prop('P06', 'Packing geopotential coefficients to a square matrix and back is lossless',
     'Packing a set of degree N gives an (N+1)x(N+1) matrix with C(n,m) at (n,m) and S(n,m) at (m-1,n), each element written inside the matrix. '
     'Unpacking such a matrix restores exactly those C and S, sets S(n,0) = 0 for all n, and gives degree and order consistent with the matrix size or the requested ones.',
     ['inputs'], 'all degrees, orders and coefficients',
     'The two triangles interleave, so a wrong index or bound silently mixes C and S for particular sizes, and unset S(n,0) terms are uninitialised memory that often happens to be zero.',
     [LK, HK], [('StokesCoeffs::to_anm, from_anm', HK)],
     VF, 'Closed form of each written element of the packed/unpacked matrix. The dense matrix library is analysed as compiled, not assumed.')
prop('P07', 'Legendre functions follow the normalized recursion inside the triangle',
     'The computed P(n,m) is the fully normalised associated Legendre function for every 0<=m<=order, m<=n<=degree, and the derivative output is d P(n,m)/d theta, where sin/cos of the angle are taken as documented. '
     'Every entry of the requested part is written, every entry used has been computed before in the same call, no access falls outside the matrices, and matrices that are too small are rejected with a non-zero status.',
     ['inputs'], 'all degrees, orders, angles (symbolic), all entries',
     'Recurrence factors and seeds interact; an error in one branch shows only at one sub-diagonal or at high degree, where tolerances hide it; reading not-yet-written entries depends on stale memory.',
     ['src/lib/gravity/forward_column_alf.cpp', 'include/gravity.hpp'], [('normalised_associated_legendre_functions', 'src/lib/gravity/forward_column_alf.cpp')],
     'static value-flow analysis with loop-carried recurrences: each store is an equation between entries, compared with the defining recurrence; definition-before-use by iteration order; coverage of the index set',
     'Proves the stores satisfy the recurrence that uniquely determines the functions (exact reals); rounding error and overflow are not addressed.')
HG = 'include/gravity.hpp'
SG = 'src/lib/gravity/sh_cunningham_normalized_gradient.cpp'
REC = 'static value-flow analysis with loop-carried recurrences and loop sums: coefficient of each C(n,m), S(n,m) in the result extracted per index region and compared with the specified formula by normal-form equality'
prop('P08', 'Gravitational acceleration is the exact gradient of the truncated potential',
     'For every admissible degree and order, the acceleration computed from a set of Stokes coefficients is GM and Re scaled, term by term, the first derivative of the solid spherical harmonic expansion: every C(n,m), S(n,m) with n <= degree and m <= min(n, order) contributes exactly once to each component with the coefficient of the derivative formula, '
     'and no coefficient outside the requested degree and order contributes.',
     ['inputs'], 'all degrees, orders (including order 0, order < degree), coefficients, positions, GM and Re',
     'Each (n,m) term is a tiny part of the sum: a wrong factor for one order, or a missing last term, stays far below test tolerances for real gravity fields.',
     [SG, HG], [('sh2gradient_cunningham', SG)], REC,
     'Uses W, M as symbols whose defining recurrences are established by P09. Exact reals, W and M distinct objects, admissible sizes; truncation and rounding error not addressed.')
prop('P09', 'Solid-harmonic recursion is correct, complete, in bounds, and rejects bad input',
     'The auxiliary solid harmonics used for acceleration and gradient satisfy their defining recursion at every degree up to two beyond the expansion and every order needed; every value read has been computed before in the same call. '
     'No access is outside the scratch matrices, whether supplied by the caller or allocated inside. '
     'Requests beyond the available coefficients, beyond the supported maximum, or with scratch space that is too small are rejected with a non-zero status; scratch space allocated inside is released on every path, and caller-owned scratch space is never released. '
     'Negative degree, order, radius or GM arguments mean the values held by the coefficient set.',
     ['inputs'], 'all degrees, orders, positions and every combination of supplied / absent scratch matrices and default arguments',
     'Reads of stale or never-written scratch entries depend on the contents of memory; error exits and ownership combinations are not exercised by value tests.',
     [SG, HG], [('sh2gradient_cunningham, sh2gradient_cunningham_impl', SG)],
     'static value-flow analysis: stores as recurrences compared with the definition; read-after-write order, coverage of the index set and bounds by symbolic arithmetic; path-sensitive ownership analysis of the entry point',
     'Factor tables are checked symbolically through their initialiser. Exact reals; allocation succeeds; W and M distinct.')
prop('P10', 'Gravity gradient is the exact symmetric second derivative of the potential',
     'For every admissible degree and order, the 3x3 gradient is, term by term, the matrix of second derivatives of the truncated solid spherical harmonic expansion: every admissible C(n,m), S(n,m) contributes exactly once with the coefficient of the second-derivative formula, nothing else contributes, and the matrix is symmetric.',
     ['inputs'], 'all degrees, orders (including 0, 1 and order < degree), coefficients, positions, GM and Re',
     'Low orders m = 0, 1 need special terms; an error there, or for the last degree, is a small relative change of one matrix element.',
     [SG, HG], [('sh2gradient_cunningham', SG)], REC,
     'Uses W, M as symbols whose recurrences are established by P09. Exact reals.')
PM = 'src/lib/gravity/point_mass_acceleration.cpp'
prop('P11', 'Third-body acceleration and its partials are the exact closed formulas',
     'The perturbing acceleration of a point mass at rcb on a body at r is -GM (s/|s|^3 + rcb/|rcb|^3) with s = r - rcb, in both overloads, and the returned Jacobian is its exact derivative with respect to r: -GM (I/|s|^3 - 3 s s^T/|s|^5).',
     ['inputs'], 'all positions (s, rcb nonzero) and GM', 'A sign or exponent error in one component can vanish at the sampled geometry; the two overloads may diverge.',
     [PM, HG], [('point_mass_acceleration (both overloads)', PM)], VF, 'Exact reals; the dense matrix library is analysed as compiled.')
HKS = 'include/kahan.hpp'
prop('P12', 'Compensated summation loses no rounding error of an addition',
     'Adding a number to a compensated sum updates the running sum with the correctly ordered error-free transformation for whichever of the two operands is larger in magnitude, accumulates the lost low-order part, and reports sum plus correction; copying or constructing the accumulator starts from exactly the given value.',
     ['inputs'], 'all operand values and orderings (symbolic floating-point terms)', 'The wrong branch is still right for most operand magnitudes, and the error is one ulp per addition.',
     [HKS], [('KahanSum', HKS)], 'static value-flow analysis over symbolic floating-point operations (no real-number simplification), matched against the error-free transformation in both branches',
     'IEEE round-to-nearest assumed and no fast-math; the operation sequence is compared, not error bounds.')
FA = 'include/fundarg.hpp'
FOLD = 'static constant-folding evaluation of the compiled code: each result becomes a closed form in the symbolic inputs (table-driven loops unrolled), compared with the specification in a canonical trigonometric-polynomial form'
STB = 'Library headers absent from the sandbox (dates, units) are replaced by declarations with the documented meaning (stubs/). Exact reals; constants compared to double rounding.'
prop('P13', 'Fundamental arguments, their rates and their overloads follow the IERS model',
     'Each of the fourteen fundamental arguments (five lunisolar, eight planetary longitudes, general precession) equals the IERS 2010 polynomial in TT Julian centuries modulo one turn, in radians; each lunisolar rate is the exact time derivative of its argument per century; '
     'the overload taking an epoch equals the one taking centuries since J2000; the functions filling arrays store all five in the order l, l\', F, D, Omega and return the array.',
     ['inputs'], 'all epochs', 'One coefficient of a high power of t, or one of two overloads, is invisible at epochs near J2000.',
     [FA, 'src/lib/fundarg/'], [('fal03 .. fapa03, dfal03 .. dfaom03, fundarg, fundarg_derivs', FA)], FOLD, STB)
prop('P14', 'Earth rotation angle, sidereal time and rotation rate follow their definitions',
     'The Earth rotation angle is the linear function of UT1 days since J2000 (IAU 2000) modulo one turn, for any split of the epoch; Greenwich mean sidereal time (IAU 2006) is that angle plus the TT polynomial, its rate is the derivative of that sum per day; the IAU 1982 expression is the standard polynomial in UT1; '
     'the TIO locator is -47 uas per century; the rotation rate is OmegaEarth (1 - LOD/86400) about the z axis.',
     ['inputs'], 'all epochs and LOD values', 'Rates and small polynomial terms change results by amounts far below the tolerance of a sampled comparison.',
     ['src/lib/iau/', 'include/earth_rotation.hpp'], [('era00', 'src/lib/iau/era00.cpp'), ('gmst, dgmst, gmst82', 'src/lib/iau/'), ('sp00', 'include/iau.hpp')], FOLD, STB)
prop('P15', 'Celestial pole coordinates and CIO locator sum every term of the IERS series',
     'X, Y (in both implementations) and s equal the IERS 2010 / IAU 2006 polynomials plus the complete sum over tables 5.2a, 5.2b and 5.2d: every term exactly once with its own sine and cosine coefficient, power of t and multipliers of the fourteen arguments, in radians; s uses X*Y/2; '
     'the arguments are all evaluated at the same TT epoch and, when requested, returned to the caller in order.',
     ['inputs'], 'all epochs; all 2900 tabulated terms', 'Each of thousands of terms is worth micro-arcseconds; one wrong digit, sign or multiplier is far below any test tolerance.',
     ['src/lib/iau/'], [('xycip06a', 'src/lib/iau/xycip06a.cpp'), ('extra::xycip06a', 'src/lib/iau/'), ('s06', 'src/lib/iau/s06.cpp')], FOLD,
     STB + ' Oracle: IERS tables kept in spec/.')
prop('P16', 'Celestial-to-terrestrial rotation composes the right angles in the right order',
     'Every form of the GCRS to ITRS rotation (elementary quaternions, closed-form quaternion, with partials, split in two, matrix forms of the celestial part) equals R1(-yp) R2(-xp) R3(s\') R3(ERA) R3(-(E+s)) R2(d) R3(E), with E, d the polar angles of the pole X, Y; '
     'X, Y and s come from the series at TT, with s computed from the series X, Y before the observed dX, dY are added; ERA is taken at UT1 obtained from the record\'s UT1-UTC; pole coordinates and offsets are converted from arcseconds; '
     'the derivative is W dR3/dt Q^T with the rate from LOD.',
     ['inputs'], 'all epochs, all Earth orientation records, all pole positions with X^2+Y^2 < 1', 'Swapped small angles, a wrong sign of s\' or offsets applied before s are milli- to micro-arcsecond effects; several formulations must agree everywhere.',
     ['src/lib/earth_rotation/', 'include/earth_rotation.hpp'], [('c2i06a (overloads), c2i06a_bz', 'src/lib/earth_rotation/'), ('detail::c2i, c2tirs, tirs2i, C, gcrs2itrs_quaternion', 'include/earth_rotation.hpp')],
     FOLD, STB + ' X, Y, s, ERA themselves by P14, P15. q and -q are the same rotation.')

prop('P17', 'Relativistic acceleration is the sum of the three IERS terms',
     'The relativistic correction to the acceleration of a satellite equals, for every state vector of satellite and Sun and every GM of Earth and Sun, angular momentum J, speed of light, beta and gamma, the sum of the Schwarzschild, Lense-Thirring and de Sitter (geodesic) terms of IERS 2010 Eq. 10.12 in SI units, J along the z axis; '
     'omitted arguments mean the IERS constants and beta = gamma = 1.',
     ['inputs'], 'all states (nonzero positions) and parameters', 'The Lense-Thirring and de Sitter terms are a hundred times smaller than the Schwarzschild term and vanish for special geometries; gamma and beta factors are invisible at 1.',
     ['src/lib/relativity/', 'include/relativity.hpp'], [('iers2010_relativistic_acceleration', 'src/lib/relativity/iers12010_relativistic_correction.cpp')], FOLD, 'Exact reals; constants compared to rounding.')
prop('P18', 'Pole tide and ocean pole tide follow the IERS formulas at every degree',
     'Secular pole is linear in years since J2000 and m1, m2 are measured from it. Solid and ocean C21, S21 corrections, the pole tide displacement (spherical components rotated to Cartesian) and the ocean pole tide displacement (from site coefficients) equal the IERS 2010 formulas. '
     'The ocean pole tide expansion sets C(n,m), S(n,m) to R_n times the model combination for every n <= degree and m <= min(n, order), with all other stored coefficients zero whatever an earlier call left; '
     'negative degree or order mean those of the model; a degree or order beyond the model, or order above degree, is refused without changing anything; no access leaves a buffer; the model file is read into the right matrices.',
     ['inputs', 'histories'], 'all epochs, pole positions, sites, constants, degrees and orders up to 360', 'High degrees are far below tolerances; stale coefficients need two calls; the last supported degree needs the full model file.',
     ['include/pole_tide.hpp', 'include/eop.hpp', 'src/lib/pole_tide/'], [('secular_pole', 'include/eop.hpp'), ('PoleTide, OceanPoleTide', 'include/pole_tide.hpp'), ('OceanPoleTide::stokes_coeffs', 'src/lib/pole_tide/ocean_pole_tide_geopotential.cpp')],
     'static constant-folding evaluation of the closed formulas; symbolic value-flow analysis (contents of the coefficient matrices, bounds, refusal) of the expansion for symbolic degree and order',
     'Load Love numbers compared with the table kept in spec/. Parsing of the model file itself is not analysed: the matrices are assumed to hold degree+1 rows. ' + STB)
SET = 'src/lib/solid_earth_tides/'
prop('P19', 'Solid Earth tide corrections to the geopotential follow IERS 2010',
     'For every epoch, Moon and Sun position, Delaunay arguments and body constants, the solid Earth tide object sets C and S of degree 2 to 4 to the sum over Sun and Moon of Eqs 6.6 and 6.7 (anelastic Love numbers of Table 6.3, fully normalised functions of the body latitude and longitude) '
     'plus the frequency-dependent corrections of Eqs 6.8a, 6.8b with every line of Tables 6.5a-c (arguments from GMST(TT, UT1) and the Delaunay arguments); every other coefficient is zero whatever the object held before; degree and order are 4, and GM and radius are those given (IERS/DE421 values by default).',
     ['inputs', 'histories'], 'all epochs, positions (off the polar axis), arguments, constants and previous contents', 'Imaginary Love numbers, single table lines and sign conventions contribute 1e-13 and less: swapped signs or a wrong multiplier hide inside tolerances or act only at some epochs.',
     [SET, 'include/solid_earth_tide.hpp', 'include/doodson.hpp', 'src/lib/iau/gmst.cpp'], [('SolidEarthTide::stokes_coeffs', SET + 'iers2010_stokes_coeffs.cpp'), ('potential_step1', SET + 'iers2010_geopotential_step1.cpp'), ('potential_step2', SET + 'iers2010_geopotential_step2.cpp')],
     FOLD, 'Tables 6.5 kept in spec/table65.txt. Equality of trigonometric polynomials in exact reals, constants to 1e-11. ' + STB)
prop('P20', 'Solid Earth tide displacement of a site follows IERS 2010',
     'For every epoch, site, Moon and Sun position and Delaunay arguments, the displacement equals, in geocentric Cartesian coordinates, the in-phase degree 2 and 3 displacement of Eqs 7.5 and 7.6 with latitude-dependent Love and Shida numbers, '
     'plus the out-of-phase and latitude-dependence contributions (Eqs 7.8 to 7.11) for Sun and Moon, plus the frequency-dependent corrections of Eqs 7.12 and 7.13 with every line of Tables 7.3a and 7.3b.',
     ['inputs'], 'all epochs, sites and positions (off the polar axis), arguments and constants', 'Most terms are below a millimetre, so tests with loose tolerances or a few sites do not see a wrong sign, a swapped north/east or a bad table line.',
     [SET, 'include/solid_earth_tide.hpp', 'include/doodson.hpp'], [('SolidEarthTide::displacement', SET + 'iers2010_site_displacement.cpp'), ('step1_displacement', SET + 'iers2010_displacement_step1.cpp'), ('step2_displacement', SET + 'iers2010_displacement_step2.cpp')],
     FOLD, 'Cartesian and spherical forms are brought to one canonical form before comparison. Tables 7.3 kept in spec/table73.txt. The local frame matrix is taken as east, north, up to x, y, z. ' + STB)
DOD = 'src/lib/doodson/'
prop('P21', 'Doodson numbers, arguments and constituent tables are consistent',
     'The six Doodson variables are the documented combinations of the Delaunay arguments and GMST, and the argument of a constituent is the sum of its six multipliers times them, modulo a turn. Construction keeps all multipliers and the phase factor, '
     'equality compares them all, same species/group/constituent compare the first 1/2/3. The text form of multipliers in [-13, 22] (letters outside 0..9, offset 5 if asked) is decoded by the parser to the same multipliers; malformed text is refused by both parsers. '
     'Every constituent of the atmospheric and ocean tables is found by its name (case-insensitively for ocean) or number with its own multipliers, phase factor, speed, height and name, and nothing else is found. Names are always null-terminated.',
     ['inputs'], 'all arguments, multipliers, seven-character strings, and every row of both tables', 'A wrong multiplier in one row, or one letter range of the number encoding, is exercised by hardly any data set.',
     ['include/doodson.hpp', DOD], [('DoodsonConstituent, TidalWave, tables', 'include/doodson.hpp'), ('from_chars, str, resolve_iers10_doodson_string', DOD), ('match_ocean_tide_wave, find_wave_entry', DOD)],
     FOLD + '; string lookups become conditions on symbolic characters, compared as formulas', 'ASCII; documented behaviour of C string functions. Oracle for the tables: spec/waves.txt (Doodson number, speed).')
EOPD = 'src/lib/eop/'
prop('P22', 'Tidal variations of polar motion, UT1 and LOD sum every tabulated term',
     'Diurnal and subdaily ocean tide variations of pole coordinates, UT1 and LOD (IERS 2010 Tables 8.2, 8.3), libration effects (Tables 5.1) and zonal tide effects on UT1, LOD and Earth rotation rate (Table 8.1, both implementations) each equal the sum over all lines of the table, '
     'every line once with its own multipliers of GMST and the Delaunay arguments, its own sine and cosine amplitudes, in the documented units.',
     ['inputs'], 'all Delaunay arguments, GMST values and epochs; every table line', 'Most lines are microarcsecond terms, below the tolerance of sampled comparisons, and act only at certain epochs.',
     [EOPD, 'include/eop.hpp'], [('deop_ocean_tide', EOPD + 'ocean_tide_variation.cpp'), ('deop_libration', EOPD + 'libration.cpp'), ('deop_zonal_tide (two implementations)', EOPD + 'zonal_tides.cpp')],
     FOLD, STB + ' Oracle: tables kept in spec/. Physical consistency of UT1 and LOD amplitudes within the published tables is not judged.')
prop('P23', 'EOP series interpolation, lookup hint and UT1 regularisation are exact',
     'Interpolation at an epoch inside a series returns, for each quantity (UT1 through UT1-TAI), the Lagrange polynomial through equally many records on both sides, as many as the degree asks for and both ends allow, with a status telling whether the degree was reached; outside, the nearest record at the requested epoch, with a status telling which side. '
     'Approximate UT1-UTC is linear between the two records around the epoch. Results never depend on earlier queries (the lookup hint), nor on the series being a copy. '
     'Regularising subtracts, restoring adds, the zonal tide variation at each record epoch to its UT1 and LOD and changes nothing else. No record outside the series is read.',
     ['inputs', 'histories'], 'all epochs, record values and earlier queries; series of 1 to 12 records, degrees 1 to 9', 'A stale hint needs two queries, a dangling one a copy; window shifts act only near the ends of the series.',
     [EOPD, 'include/eop.hpp'], [('EopSeries::interpolate', EOPD + 'lagrange_interpolation.cpp'), ('EopSeries::approx_dut1', EOPD + 'approx_dut1.cpp'), ('EopSeries::regularize', EOPD + 'regularize.cpp'), ('EopSeries copy, move, upper_bound', 'include/eop.hpp')],
     FOLD + '; one case per position of the epoch relative to the records and per hint', 'Records strictly increasing in time. ' + STB)
prop('P24', 'Free core nutation correction follows the Lambert model',
     'The free core nutation correction at any epoch is X = c cos(phi) - s sin(phi), Y = s cos(phi) + c sin(phi), phi = -2 pi (t-J2000)/430.21 days, with amplitudes c, s linear between the coefficients enclosing the epoch and held at the first or last one outside; the uncertainty is interpolated alike and grows by 0.3 microarcseconds per day of distance outside. '
     'Without user coefficients those of IERS Table 5.2c apply, every row. No coefficient outside the table is read.',
     ['inputs'], 'all epochs; all coefficient values', 'Ends of the table and the years after it are not sampled by tests; one wrong coefficient acts for two years only.',
     ['src/lib/free_core_nutation/', 'include/fcn.hpp'], [('lambert_fcn', 'src/lib/free_core_nutation/lambert.cpp')],
     FOLD + '; one case per interval', 'At least one coefficient; strictly increasing dates. ' + STB)
prop('P25', 'Ocean and atmospheric tide geopotential sums every constituent of the atlas',
     'For every epoch, Delaunay arguments and coefficients, each C and S of an ocean or atmospheric tide object is the sum over the constituents of the atlas of cosine coefficient times cos plus sine coefficient times sin of the constituent\'s Doodson argument (plus phase factor times pi/2 for atmospheric tides), whatever was computed before; '
     'with an admittance model, cos and sin are replaced by the row of the admittance matrix applied to the cosines and sines of all its constituents. '
     'An atlas finds a constituent exactly by its multipliers and phase factor, refuses one it has, reports the largest degree and order. Copies, moves, swaps and replaced admittance models keep results and own every model exactly once; names of any length fit.',
     ['inputs', 'histories'], 'all epochs, arguments and coefficients; every history of copy, move, swap and replacement of two objects in the analysis',
     'Stale coefficients, wrong rows of the admittance matrix and ownership errors need several objects and calls; no test builds these sources.',
     ['include/ocean_tide.hpp', 'include/atmospheric_tides.hpp', 'include/tide_atlas.hpp', 'src/lib/ocean_tide/', 'src/lib/atmospheric_tides/', 'src/lib/tide_atlas.cpp'],
     [('OceanTide::stokes_coeffs, copy and move members', 'include/ocean_tide.hpp'), ('stokes_coeffs_impl, stokes_coeffs_with_admittance_impl', 'src/lib/ocean_tide/ocean_tide_potential.cpp'),
      ('AtmosphericTide::stokes_coeffs', 'src/lib/atmospheric_tides/atm_tides_geopotential.cpp'), ('TideAtlas', 'src/lib/tide_atlas.cpp')],
     FOLD + '; heap blocks are tracked for release and use', 'Constituents of one atlas share degree and order; up to three constituents of degree up to 3 (elementwise sums of any size: P02). ' + STB)
prop('P26', 'Grid lookup finds the cell of a point and inverts node indexes',
     'For a two-dimensional grid with either leading axis, any start, positive steps and any number of points: line() gives a point inside the grid the index of the lower left node of its cell and every point outside (a default grid has no inside) -1; '
     'surrounding_nodes() gives the indexes of the four corners of the cell (for cells that have all four) and -1 four times for points outside; xyindex2node() returns the coordinates of the node an index stands for; stops are start + points * step.',
     ['inputs'], 'all starts and all points of every cell; grids of several shapes', 'Swapped extents cancel on square grids; the edges of cells and of the grid are hit by hardly any sampled point. Nothing tests this header.',
     ['include/grid.hpp'], [('TwoDimGrid', 'include/grid.hpp')],
     'static constant-folding evaluation with interval reasoning on the place of the point inside its cell', 'Exact reals; six grid shapes, two pairs of steps. The right/top neighbours in the last column or row are a known finding.')
PLD = 'src/lib/planets/'
prop('P27', 'Planet positions use the right bodies, frame, time scale and units',
     'Each planet maps to its own NAIF identifier, as number and as null-terminated text within the buffer; anything else is refused. Positions and states are those of that body relative to the Earth (399) in frame J2000, uncorrected, at the ephemeris time of the TT Julian date, converted from km to metres. '
     'Gravitational constants of Sun and Moon come from the pool in km^3/s^2, or in m^3/s^2 if asked, after the named kernel (if any) is loaded. A kernel is loaded exactly when none of that very name is.',
     ['inputs', 'histories'], 'all planets, epochs, buffer sizes from 4; several sets of loaded kernels', 'Needs the SPICE library and kernels that no test has; a wrong identifier or unit for one planet is plausible-looking output.',
     ['include/planets.hpp', PLD], [('planet_pos, planet_state, sun_moon_gm', 'include/planets.hpp'), ('load_if_unloaded', PLD + 'kernel.cpp'), ('planet_to_naif_id, planet_to_naif_idstr', PLD + 'planet_to_naif_id.cpp')],
     FOLD + '; SPICE calls are modelled and noted', 'SPICE functions are modelled after their documentation. ' + STB)
IC = 'src/lib/icgem/'
prop('P28', 'Reading a gravity model gives the coefficients its file holds for the epoch',
     'For a file following the ICGEM format (1.0 or 2.0): header items (constant GM, radius, maximum degree, kind of error columns, version, normalisation, tide system, names) are those stated, in any order, with defaults for absent optional ones; '
     'every coefficient C(n,m), S(n,m) to the asked degree and order is gfc + gfct + trnd (t-t0) + sum asin sin(2 pi (t-t0)/p) + acos cos(2 pi (t-t0)/p), of the terms whose interval t0 <= t < t1 holds the epoch (2.0) or with the reference epoch of the gfct term (1.0); others are zero; '
     'error columns are skipped, FORTRAN exponents and leading plus signs (1.0) understood; GM, radius, normalisation and the actual degree and order are set. Missing files, headers without end or with unreadable values, lines that do not follow the format, coefficients that cannot exist and degrees or orders out of range give an error and no access outside the buffers.',
     ['inputs'], 'all values of the numbers; all epochs; every kind of line, of error columns, and every column made unreadable; files to degree 4',
     'No test reads a model with time-variable terms in each of the four column layouts; a skipped column or a wrong reference epoch changes coefficients by plausible amounts.',
     ['include/icgemio.hpp', IC], [('Icgem::parse_header', IC + 'icgemio_read_header.cpp'), ('Icgem::parse_data_v1', IC + 'icgemio_read_data_v1.cpp'), ('Icgem::parse_data_v2', IC + 'icgemio_read_data_v2.cpp'),
      ('resolve_icgem_data_line_v1, _v2', IC + 'resolve_igcem_data_line_v2.cpp'), ('resolve_icgem_data_date_v1, _v2', IC + 'resolve_igcem_data_date_v2.cpp')],
     FOLD + ' over an abstract file; file streams and number scanning are modelled and numbers are symbolic', 'Layouts of files of degree up to 4; lines in the order the format requires. ' + STB)
PT = 'src/lib/pole_tide/'
prop('P29', 'Ocean pole tide models are read and interpolated as their files state',
     'The six ocean pole load tide coefficients of a site are the bilinear interpolation, in longitude and latitude, of the values the grid file holds at the four nodes around it, with the start, steps and numbers of points its header states and longitudes of sites in [-pi, pi) or [0, 2pi); one result per site, in the order given. '
     'The ocean pole tide expansion file gives A and B, real and imaginary, of every degree and order up to those asked for exactly as it lists them, zero where it lists none. '
     'Missing files, headers or lines that do not follow the format, sites the grid does not surround and coefficients that cannot exist give an error, never values of other nodes, and nothing is read or written outside the buffers.',
     ['inputs'], 'all sites of each cell, all values; global and regional grids; expansions of degree up to 4', 'No test builds these sources; exchanged neighbours or a shifted longitude give smooth, plausible coefficients.',
     [PT, 'include/pole_tide.hpp'], [('get_desai_ocp_deformation_coeffs', PT + 'get_desai_ocp_deformation_coeffs.cpp'), ('parse_desai02_coeffs', PT + 'parse_desai02_coeffs.cpp')],
     FOLD + ' over an abstract file; file streams and number scanning are modelled and numbers are symbolic', 'Sites at least 1e-6 of a cell away from node lines. Within one step of the seam of a global grid refusal and periodic interpolation are both accepted. ' + STB)
prop('P30', 'Earth orientation and nutation series files give exactly the records asked for',
     'Reading an IERS C04 file, of the 2014 or 2020 series as its header tells, leaves in the series exactly the records of the file whose epoch in TT lies in [start, end), in file order and nothing it held before: epochs converted from UTC to TT (with the fraction of day), each quantity from its own column, TAI-UTC of the day, '
     'rates zero where the file has none; look-ups right after reading are valid. Reading a free core nutation coefficient file leaves exactly the coefficients whose epoch lies in [from, to), or all. '
     'Missing files, unknown headers, reversed intervals and lines that cannot be read give an error, and nothing is read outside the text of a line.',
     ['inputs'], 'all values of all columns; every interval between any two records and around them; every column made unreadable', 'No test builds these readers; one exchanged column or one record at the end of the interval is not visible in results.',
     [EOPD, 'src/lib/free_core_nutation/parse_lambert_coeffs.cpp', 'include/eop.hpp', 'include/fcn.hpp'],
     [('parse_iers_C04', EOPD + 'parse_iers_c04.cpp'), ('choose_c04_series', EOPD + 'choose_eop_c04_series.cpp'), ('parse_iers_C0414', EOPD + 'parse_iers_c0414.cpp'), ('parse_iers_C0420', EOPD + 'parse_iers_c0420.cpp'), ('parse_lambert_coefficients', 'src/lib/free_core_nutation/parse_lambert_coeffs.cpp')],
     FOLD + ' over an abstract file; file streams and number scanning are modelled and numbers are symbolic', 'Dates are concrete (six-day and six-week files, four records a day); UTC to TT and TAI-UTC are those of the datetime library. Malformed lines outside the interval are not judged. ' + STB)
prop('P31', 'Stop watches accumulate exactly the intervals they timed',
     'After any sequence of starts and stops a Clock holds, as total duration, the sum over all stops of the time since the last start (a running interval counts only when stopped), and the number of stops; durations are given in the unit asked, averages are total over count in the unit asked, is_faster and compare use these averages. '
     'Copies, moved and assigned clocks carry on with the running interval, total, count and name, and the originals keep theirs. Names of any length are kept up to the size of the buffer, null-terminated, and nothing outside the object is accessed.',
     ['inputs', 'histories'], 'all readings of the clock; up to five intervals, running and repeated stops; copies, moves, assignments, self-assignment; names of 0 to 40 characters',
     'Tests only print timings; a lost interval or a copied count is not visible in them.', ['include/clock.hpp'], [('Clock', 'include/clock.hpp')],
     FOLD + ' with every reading of the system clock symbolic', 'Readings are whole milliseconds (units and rounding are decided on selected concrete readings). ' + STB)
AO = 'src/lib/aod1b/'
prop('P32', 'AOD1B products are read and named as the format defines',
     'Reading an AOD1B file, non-tidal or tidal, sets every header quantity from its own line (epochs brought from GPS time to TT, the tidal wave by its name); copies, moved and assigned objects hold the same. '
     'A data block iterator visits exactly the blocks of its coefficient type, in file order, with set number, number of lines, epoch (TT) and type of their heading, whether blocks are collected or skipped, can begin again, and tells the end of the file; '
     'collecting gives every coefficient up to the degree and order asked for from its own line and zero where the block has none (resized to what was found, if allowed). Tidal files give the cosine coefficients of the first and the sine coefficients of the second set. '
     'Product names are AOD1B_YYYY-MM-DD_S_RL.asc with .gz if compressed; the release is read from names with or without path. Missing files, unknown or unreadable lines, contradicting epochs, coefficients that cannot exist and degrees that cannot be held give an error and no access outside the buffers.',
     ['inputs', 'histories'], 'all values of the coefficients and constants; every order of begin, collect, skip and advance used; every numeric field and column made unreadable; files of degree up to 5',
     'No test builds these readers; a skipped block or a misplaced column gives plausible coefficients of another epoch.',
     [AO, 'include/aod1b.hpp'], [('Aod1bIn::read_header', AO + 'aod1b_read_header.cpp'), ('Aod1bIn::collect_coeffs', AO + 'aod1b_collect_coeffs.cpp'), ('Aod1bIn::goto_next_block', AO + 'aod1b_goto_next_block.cpp'), ('parse_data_block_header', AO + 'aod1b_parse_data_block_header.cpp'),
      ('get_tidal_wave_coeffs', AO + 'aod1b_get_tidal_wave.cpp'), ('Aod1bNonTidalProductNaming', AO + 'aod1bnontidalproductnaming.cpp'), ('Aod1bDataBlockIterator', 'include/aod1b.hpp')],
     FOLD + ' over an abstract file; file streams and number scanning are modelled and numbers are symbolic', 'Epochs are concrete, dates well-formed; headers of the documented layout; GPS to TT and calendar are those of the datetime library. ' + STB)
ADS = 'include/aod1b_data_stream.hpp'
prop('P33', 'AOD1B data streams give coefficients at any time asked for',
     'Once initialised, an AOD1B data stream gives, for any epoch t from the first up to (not including) the last data block of its coefficient type, the linear interpolation in time of the coefficients of the two blocks of that type enclosing t (at a block epoch, that block), whatever was asked for before: later or earlier epochs, after jumps over several blocks, after refusals. '
     'Epochs outside the file are refused with an error. With a directory given, epochs from the last block of the day on are answered across midnight and from the file of the next day (month and year ends included, directories of any length), read when needed. Streams moved or assigned answer as before, and release their memory once. '
     'Files without a block of the type, or with unreadable blocks, give an error; nothing is accessed outside the buffers.',
     ['inputs', 'histories'], 'all epochs within each interval and all coefficient values; all pairs of intervals and of block epochs asked in turn, refusals in between; days in sequence; moves between any questions',
     'The test program reads external data files and only goes forward in small steps; the interpolation of wrong blocks gives plausible numbers.',
     [ADS, AO], [('Aod1bDataStream::coefficients_at', ADS), ('Aod1bDataStream::hunt_range', ADS), ('Aod1bDataStream::initialize', ADS), ('Aod1bDataStream::feed_next_file', ADS)],
     FOLD + ' over abstract files; the epochs asked for and all coefficients are symbolic', 'Block epochs are concrete, at least four blocks of the type; a step back into a day already left, or over a whole day, may be refused. ' + STB)
