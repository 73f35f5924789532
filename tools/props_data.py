NOTE = "Holds on the executions the seeded workload drives (counts in the evidence file); trusts the independently written reference model named in DESIGN.md."
prop("C01", "Frame rotations are proper, invertible, path-independent and correct",
 "For every supported pair of reference frames, epoch (within the UT1 model horizon for Earth-rotating frames), nutation model and Earth-orientation provider, the frame rotation is a proper rotation whose reverse is its inverse, and composing through any intermediate frame gives the direct rotation. Each rotation equals the published IAU/IERS orientation of the two frames (bias, Fukushima–Williams precession, the selected nutation model with celestial-pole offsets, CIP/CIO, Earth rotation angle, polar motion, TEME, Galactic, FK4, IAU body-fixed poles and meridians). Directions, positions and vectors, Cartesian or spherical, are all transformed by exactly that rotation.",
 "every ordered frame pair and composable triple, any epoch, nutation model and EOP values",
 "The tests check a handful of pairs for round trip and a few epochs; a swapped or negated rotation round-trips perfectly, and wrong inverses and paths only show when all pairs, models and EOP providers are crossed against an independent definition.",
 ["src/coordinates/transform/providers/mod.rs", "src/coordinates/transform/providers/frames_inertial.rs", "src/coordinates/transform/providers/frames_earth.rs", "src/coordinates/transform/providers/frames_planetary.rs", "src/coordinates/transform/providers/frames_catalog.rs", "src/coordinates/transform/providers/frames_teme.rs", "src/coordinates/transform/frames/bias.rs", "src/astro/cio.rs", "src/astro/precession.rs", "src/astro/nutation/mod.rs", "src/astro/polar_motion.rs"],
 [("composition through ICRS", "src/coordinates/transform/providers/mod.rs"), ("precession-nutation matrix", "src/astro/precession.rs")],
 tech="runtime monitor: algebraic invariants over all frame pairs/triples plus differential oracle against an independent IAU 2006/2000 reference", note=NOTE)
prop("C02", "Earth orientation, sidereal time and nutation follow the IAU/IERS models",
 "For any epoch, the selectable nutation models give the IAU 2000A/2000B/2006A values, and the obliquity, precession, bias, ecliptic, CIP/CIO and polar-motion quantities give the IAU 2006 / IERS 2010 values. Earth rotation angle and Greenwich mean/apparent sidereal time equal their published definitions for any UT1/TT pair and any split of the Julian date, lie in [0, 2π), and the CIO-based and equinox-based chains agree. Earth-orientation values (dut1, polar motion, celestial-pole offsets) supplied by a provider are applied in full and with the right sign, and UT1 outside the supported model horizon is refused instead of silently extrapolated.",
 "any epoch, UT1/TT pair, Julian-date split, nutation model and EOP values",
 "The tests compare a few epochs near J2000 against themselves or loose tolerances; a wrong coefficient, sign or time argument only shows away from those epochs and against an independent series evaluation.",
 ["src/astro/nutation/mod.rs", "src/astro/precession.rs", "src/astro/era.rs", "src/astro/sidereal.rs", "src/astro/cio.rs", "src/astro/polar_motion.rs", "src/astro/eop.rs", "src/astro/earth_rotation.rs", "src/astro/earth_rotation_provider.rs", "src/coordinates/transform/ecliptic_of_date.rs"],
 [("nutation series", "src/astro/nutation/mod.rs"), ("sidereal time", "src/astro/sidereal.rs"), ("UT1 from EOP", "src/astro/earth_rotation.rs")],
 tech="runtime monitor: differential oracle against an independent IAU 2006/2000 evaluation (ERFA-style reference, published test vectors) over seeded epochs", note=NOTE)
prop("C03", "Centre shifts add exactly the ephemeris offset",
 "For any epoch, frame and ephemeris, shifting a position between the barycentric, heliocentric, geocentric (and bodycentric) centres adds exactly the offset between the two origins that the context's ephemeris gives for that epoch, expressed in the position's own frame. Reverse shifts cancel, shifting through any intermediate centre equals the direct shift, the length unit does not matter, and combined centre+frame+unit transforms equal the composition of the single ones. A bodycentric origin is the body's position from its orbit about its own reference centre, for every kind of orbit and every reference centre.",
 "every centre pair, frame, epoch, ephemeris (including arbitrary user-supplied ones), orbit and unit",
 "The tests use the default ephemeris at a few epochs with loose tolerances; a wrong sign, an offset taken in the wrong frame or from the wrong ephemeris only shows against independently chosen body positions.",
 ["src/coordinates/transform/providers/centers_standard.rs", "src/coordinates/transform/centers/mod.rs", "src/coordinates/transform/context.rs", "src/coordinates/transform/ext.rs", "src/coordinates/transform/providers/centers_planetary.rs", "src/coordinates/transform/providers/centers_lagrange.rs"],
 [("centre shifts", "src/coordinates/transform/providers"), ("bodycentric transform", "src/coordinates/transform/centers")],
 tech="runtime monitor: adversarial user-supplied ephemerides plus an independent vector-offset oracle over seeded centre/frame/epoch/orbit combinations", note=NOTE)
prop("C05", "Ephemerides follow the published series; Lagrange points balance",
 "For any epoch, the planets' and Sun's heliocentric/barycentric VSOP87 positions and velocities, the Moon's ELP2000-82B position, the closed-form Moon of Meeus chapter 47 (of-date ecliptic and equatorial) and Pluto's position equal an independent term-by-term evaluation of the published series; velocities are the time derivatives of the positions, heliocentric equals barycentric minus Sun, and the alternative entry points (traits, dynamic dispatch, combined position+velocity) agree exactly. The solved Sun–Earth L1–L5 points satisfy the rotating-frame force balance at the right side of the Earth and Sun, fitted Chebyshev kernels reproduce the solver to the stated tolerance, and requests outside the bundled Lagrange kernel's validity range are refused.",
 "any epoch within ±20 centuries of J2000 and every supported body / Lagrange point",
 "The tests check a few bodies at one or two epochs with loose tolerances; a dropped power of t, series or component, or a wrong velocity term, only shows away from J2000 and against an independent evaluation.",
 ["src/ephemeris/vsop87/mod.rs", "src/ephemeris/elp2000/mod.rs", "src/ephemeris/pluto.rs", "src/ephemeris/lagrange/solver.rs", "src/ephemeris/lagrange/mod.rs", "src/ephemeris/lagrange/fit.rs", "src/event/lunar/meeus_ch47.rs"],
 [("VSOP87 evaluation", "src/ephemeris"), ("ELP2000 evaluation", "src/ephemeris"), ("Lagrange solver", "src/ephemeris/lagrange/solver.rs")],
 tech="runtime monitor: differential oracle (independent series evaluation, JPL approximate elements, Meeus lunar theory, force balance) over seeded epochs", note=NOTE)
prop("C04", "Horizontal coordinates, topocentric shift and observer velocity",
 "For any site on Earth (poles and date line included), epoch and target direction (zenith, nadir and celestial poles included), equatorial-to-horizontal conversions give the altitude and the azimuth counted from North through East in [0, 360) that follow from the apparent sidereal time, are finite, preserve distance and are undone by their inverses; azimuth-convention conversions are exact relabellings of one physical bearing. The topocentric shift subtracts the site's WGS84 position, rotated from Earth-fixed to the position's frame with the context's Earth-orientation values, and is undone by the reverse shift in any unit and frame. The observer velocity is the context ephemeris' Earth velocity plus the rotation of the site about the celestial pole.",
 "any site, epoch, target direction, azimuth convention, EOP values, nutation model, ephemeris and unit",
 "The tests pin a few sites and loose tolerances; mirrored azimuths, double-applied corrections, ignored context values and NaNs at the zenith or the poles only show on arbitrary geometry against an independent chain.",
 ["src/coordinates/horizontal.rs", "src/coordinates/transform/horizontal.rs", "src/coordinates/transform/centers/position/to_topocentric.rs", "src/coordinates/observation/observer_state.rs", "src/event/horizontal.rs"],
 [("equatorial/horizontal", "src/coordinates/transform/horizontal.rs"), ("topocentric shift", "src/coordinates/transform/centers/position/to_topocentric.rs")],
 tech="runtime monitor: independent WGS84/IAU chain as oracle over seeded sites, epochs, EOP values and ephemerides", note=NOTE)
prop("C07", "Altitude crossings, threshold periods and culminations are complete",
 "For any target (Sun, Moon, planets, stars, fixed directions and user-implemented targets with smooth diurnal motion), site, time window and threshold, the reported crossings are exactly the instants at which the target's own altitude passes the threshold: in order, inside the window, none missed or invented (grazing passes resolved down to a few arcseconds), alternating and with the right direction. The above, below and in-range periods are ordered, disjoint, and contain an instant exactly when the altitude then is above, below or within the bounds, above and below together tiling the window; an empty window reports nothing. Every local extremum of the altitude away from the window ends and not crowded by another one is reported once as a culmination, with its kind, time and altitude.",
 "any target, site (poles included), window, threshold and tolerance",
 "The tests search a few mid-latitude days; missed grazing pairs, wrong directions at window edges, overlapping periods and polar cases only show when the altitude itself is watched densely over arbitrary sites, windows and thresholds.",
 ["src/event/search/crossings.rs", "src/event/search/scan_fallback.rs", "src/event/search/intervals.rs", "src/event/search/extrema.rs", "src/event/altitude/events.rs", "src/event/altitude/provider.rs", "src/event/solar/daily_events.rs", "src/event/lunar/altitude_periods.rs", "src/event/stellar/altitude_periods.rs"],
 [("crossing search", "src/event/search/crossings.rs"), ("solar daily predictor", "src/event/solar/daily_events.rs"), ("periods from crossings", "src/event/search/intervals.rs")],
 tech="runtime monitor: online trace checker; the altitude signal is sampled densely (extrema refined) and every reported event and period is judged against the observed trace", note=NOTE)
prop("C08", "Azimuth passages, extrema and range periods are complete",
 "For any target, site, window and bearing, the reported passages are exactly the instants at which the target's azimuth passes that bearing (never the opposite one), in order and with the right sense, including sweeps through North and fast sweeps near the zenith. Range periods contain an instant exactly when the azimuth then lies in the range (ranges with min > max wrap through North), outside periods are their complement, both inside the window and disjoint, computed with the correction policy the query asks for. Isolated turning points of the continuous azimuth away from the window ends are reported once with their kind, time and azimuth.",
 "any target, site, window, bearing, range (wrapping, narrow, full circle) and policy",
 "The tests look at one mid-latitude day; opposite-bearing passages, narrow ranges skipped between scan samples and unwrapping faults only show against a dense record of the azimuth on arbitrary sites and targets.",
 ["src/event/azimuth/events.rs", "src/event/azimuth/provider.rs", "src/event/azimuth/types.rs", "src/event/search/intervals.rs", "src/event/search/root_finding.rs", "src/event/search/extrema.rs"],
 [("bearing passages", "src/event/azimuth/events.rs"), ("per-target providers", "src/event/azimuth/provider.rs")],
 tech="runtime monitor: online trace checker over the densely sampled, unwrapped azimuth of each target", note=NOTE)
prop("C09", "Where the Sun, Moon, planets and stars stand in the sky",
 "For any observer and epoch, the altitude (within ±90°) and azimuth (from North through East, in a full turn) reported for the Sun, Moon, planets, catalogue stars and fixed directions are those of their J2000 position precessed and nutated to the true equator of date and turned by the local apparent sidereal time; solar-system bodies are seen from the observer's own place on the Earth, and the different entry points (per-body altitude and azimuth, full horizontal position, apparent equatorial place, stellar helper with or without a correction policy, Sun's ecliptic longitude) describe the same direction. The geometric policy leaves a star's catalogue coordinates uncorrected and every other policy corrects them. Twilight classes change exactly at 0°, −6°, −12° and −18° and the named thresholds are those altitudes.",
 "any site (poles and date line included), epoch, body, direction and correction policy",
 "The tests check loose ranges at a few sites; a swapped argument, a dropped nutation term, a mirrored azimuth or one provider diverging from the others only shows against an independent sky chain on arbitrary sites and epochs.",
 ["src/event/horizontal.rs", "src/event/solar/sun_equations.rs", "src/event/lunar/moon_equations.rs", "src/event/altitude/provider.rs", "src/event/azimuth/provider.rs", "src/event/solar/classification.rs", "src/event/solar/night_types.rs"],
 [("star chain", "src/event/horizontal.rs"), ("Sun chain", "src/event/solar/sun_equations.rs"), ("per-body providers", "src/event/altitude/provider.rs")],
 tech="runtime monitor: independent precession-nutation/sidereal/WGS84 chain as oracle over seeded observers, epochs and bodies", note=NOTE)
prop("C10", "Moon phase, principal-phase events and illumination windows",
 "For any epoch and ephemeris, the Moon's phase angle is the Sun–Moon–Earth angle at the Moon, its illuminated fraction (1+cos i)/2, its elongation the eastward difference of ecliptic longitudes and its waxing flag that elongation lying between 0 and 180°; the topocentric variant uses the directions seen from the site, with the same ephemeris. Phase names follow the elongation and the chosen half width. For a scan step well below a month the principal-phase events are exactly the passages of 0°, 90°, 180° and 270°, ordered, inside the window and with the right kind; illumination windows longer than the scan step are found, contain an instant exactly when the fraction satisfies the bounds and are ordered and disjoint; sampled series hold the geometry at start + k·step up to and including the end.",
 "any epoch, site, ephemeris (including user-supplied Earth–Moon–Sun systems), window, thresholds and scan step below a tenth of a month",
 "The tests use one month of the built-in ephemeris; ignored latitudes, wrong-backend directions, dropped windows and misassigned phases only show on arbitrary systems, windows and steps.",
 ["src/event/lunar/phase.rs", "src/event/lunar/moon_equations.rs", "src/event/search/intervals.rs"],
 [("phase geometry", "src/event/lunar/phase.rs"), ("phase events", "src/event/lunar/phase.rs"), ("illumination windows", "src/event/search/intervals.rs")],
 tech="runtime monitor: vector-geometry oracle and dense-trace checker over synthetic and built-in Earth–Moon–Sun systems", note=NOTE)
prop("C11", "Two-body orbits follow Kepler's laws; bad elements are refused",
 "For any valid elements (circular to nearly parabolic ellipses, hyperbolas, any orientation and phase) and any epoch, the position computed from Keplerian, prepared, mean-motion and periapsis-based conic orbits is the two-body solution: Kepler's equation solved at the propagated mean anomaly (heliocentric rate, caller's gravitational parameter or stated mean motion), at the right distance from the focus and in the plane given by inclination, node and argument of periapsis, without panicking or failing to converge. Non-finite, non-positive, negative-eccentricity and parabolic elements, and hyperbolic ones where only ellipses are allowed, are refused with the matching error.",
 "any elements with e up to 1−1e-10 and from 1+1e-8, epochs within ±60000 days, any gravitational parameter",
 "The tests evaluate a few textbook orbits; solver failures near e=1, quadrant or sign faults for retrograde and hyperbolic motion and drift far from epoch only show on arbitrary elements against an independent solution.",
 ["src/astro/orbit.rs", "src/astro/conic.rs", "src/astro/conic_equations.rs", "src/astro/units.rs", "src/bodies/comet.rs"],
 [("orbit evaluation", "src/astro/conic_equations.rs"), ("element validation", "src/astro/conic.rs")],
 tech="runtime monitor: independent safeguarded two-body solver as oracle over seeded elements and epochs", note=NOTE)
prop("C13", "Aberration, light deflection, proper motion and space motion",
 "For any direction, distance and observer velocity below the speed of light, aberration is the relativistic (Lorentz) change of the direction of incoming light, is undone by its inverse, keeps a position's distance and works the same in every frame and form; annual aberration uses the Earth's barycentric velocity. Gravitational deflection turns a source away from the deflecting body by (Schwarzschild radius / distance)·cot(θ/2) in the plane of the body and the source, for the Sun, the planets, any body and their combination, and its inverse undoes it. Proper motion moves RA/Dec linearly in Julian years with the declared RA convention (refused at the poles when undefined), and space motion is uniform straight-line motion from parallax, proper motion and radial velocity, refused for non-positive parallax.",
 "any direction (poles, apex, antapex, body direction included), speed, distance, epoch span of ±1000 years",
 "The tests check a few directions at Earth's speed with loose tolerances; first-order formulas, sign, convention and year-length faults only show at other speeds, angles and spans against an independent formula.",
 ["src/astro/aberration.rs", "src/astro/light_deflection.rs", "src/astro/proper_motion.rs", "src/coordinates/observation/observational_direction.rs"],
 [("aberration", "src/astro/aberration.rs"), ("deflection", "src/astro/light_deflection.rs"), ("space motion", "src/astro/proper_motion.rs")],
 tech="runtime monitor: closed-form special-relativity, light-bending and straight-line-motion oracles over seeded adversarial geometry", note=NOTE)
prop("C06", "SPK kernels: states, chains, coverage, precedence, byte order",
 "For any well-formed SPK kernel (Chebyshev position or position+velocity, Lagrange or Hermite discrete states; either byte order; any number of summary records, segments and gaps), the state of a target relative to a centre is the sum along the chain of segments, each evaluated as its type prescribes; where several segments cover the epoch the last one in the file wins, and of several loaded kernels the last one loaded wins. Epochs outside every covering segment (its data and its declared interval) and unknown bodies are refused, never extrapolated. The Julian-date queries evaluate at the corresponding TDB epoch, take the Earth from the Earth–Moon barycentre and the Moon by the mass ratio when no Earth segment exists, and return heliocentric/barycentric/geocentric vectors, planet centres and velocities consistent with those states.",
 "any kernel of supported segment types (other types only indexed), any epoch, target and centre",
 "The tests evaluate one-record constant kernels in little-endian form; record selection, derivative scaling, chain signs, overlap precedence, interval limits and byte order only show on generated kernels with an independent evaluator.",
 ["src/formats/spice/kernel.rs", "src/formats/spice/segment.rs", "src/formats/spice/daf.rs", "src/formats/spice/spk.rs", "src/formats/spice/spk_kernel.rs", "src/spice/kernel_set.rs", "src/spice/context.rs"],
 [("chain resolution", "src/formats/spice/kernel.rs"), ("segment evaluation", "src/formats/spice/segment.rs"), ("DAF container", "src/formats/spice/daf.rs")],
 tech="runtime monitor: generated kernels with an independent writer/evaluator as differential oracle for every query path", note=NOTE)
prop("C12", "TLE propagation follows the mean elements with J2 drift",
 "For any valid two-line element set (circular to highly eccentric, any inclination) and any time offset, the propagated TEME state is the two-body position and velocity on the mean orbit: mean anomaly advanced with the printed mean motion and its printed derivatives (the columns hold half the first and a sixth of the second derivative), node, perigee and anomaly drifting at the secular J2 rates of the chosen gravity model, semi-major axis from the mean motion of the date. The state carries the requested epoch, minute offsets and absolute epochs agree, and invalid elements (eccentricity outside [0,1), non-positive or non-finite mean motion), non-finite times and times at which the mean motion is no longer positive are refused.",
 "any TLE with e below 0.999, offsets up to ±60 days, every gravity model",
 "The tests check that one LEO state has a plausible size; wrong drift rates, a mis-scaled derivative, solver failures at high eccentricity or a velocity inconsistent with the position only show against an independent solution on arbitrary elements.",
 ["src/astro/sgp4/propagator.rs", "src/astro/sgp4/elements.rs", "src/astro/sgp4/state.rs"],
 [("propagation", "src/astro/sgp4/propagator.rs"), ("element conversion", "src/astro/sgp4/elements.rs")],
 tech="runtime monitor: independent Kepler/J2-secular solution as oracle over generated element sets and offsets", note=NOTE)
prop("C19", "TLE and OMM text is read and written faithfully",
 "For any TLE, every field read equals what its columns say, and writing then reading reproduces every representable record to the column resolution (always 69 columns, valid checksum, next date when the day fraction rounds up); what cannot be represented, and lines with a wrong length, leading digit, checksum, satellite number, calendar day or number, are refused, never silently altered. OMM documents in KVN, XML and JSON read back what was written (any name, catalogue number and epoch, leap seconds included), converting TLE to OMM and back keeps all elements, and missing or malformed fields, other theories and non-UTC epochs are refused while absent optional fields default to zero.",
 "any record, single-character damage, document order, line ending, printed units, time systems and numeric magnitude",
 "The tests round-trip one ISS element set; mantissa rollover, tiny or huge drag terms, year-end epochs, six-digit catalogue numbers and damaged columns only show on generated records.",
 ["src/formats/tle/parse.rs", "src/formats/tle/builder.rs", "src/formats/tle/tle.rs", "src/formats/tle/omm/mod.rs", "src/formats/tle/omm/kvn.rs", "src/formats/tle/omm/xml.rs", "src/formats/tle/omm/json.rs"],
 [("TLE reader", "src/formats/tle/parse.rs"), ("TLE writer", "src/formats/tle/builder.rs"), ("OMM documents", "src/formats/tle/omm/mod.rs")],
 tech="runtime monitor: independent integer-column writer, write/read comparison and fault injection into generated documents", note=NOTE)
prop("C14", "Orbit propagation: trajectories, transition matrices, events",
 "For any bound Earth orbit and any forward or backward span (zero included), every propagator and integrator returns the state of the true solution of the equations of motion within its step or tolerance error, at exactly the requested final epoch; going forth and back returns to the start, splitting a span changes nothing, and time-dependent forces are evaluated at the epochs of the integration stages. The state transition matrix (whole span and accumulated arc) and the parameter sensitivities are the derivatives of the final state, and the matrix is symplectic for conservative forces. Event runs report every crossing in the requested direction in order, stop at a terminal one, and sample at the requested output interval on the trajectory; unusable steps, exhausted step budgets and missing force-model inputs are refused.",
 "bound orbits with perigee above 6600 km and e up to 0.7, spans up to ±2.5 revolutions (events ±3), two-body, J2 and periodic forcing",
 "The tests propagate one or two orbits and check that energy or radius is roughly kept; stage-epoch errors, sign errors backwards, step truncation, wrong matrix blocks or lost events only show against an independent solution over many orbits and spans.",
 ["src/pod/propagation/mod.rs", "src/astro/dynamics/propagation/propagator.rs"],
 [("high-level propagator", "src/astro/dynamics/propagation/propagator.rs"), ("POD integrators and STM", "src/pod/propagation/mod.rs")],
 tech="runtime monitor: analytic Kepler solution and an independent Gragg-Bulirsch-Stoer integrator as oracle for every integration path", note=NOTE)
prop("C15", "Force models of the orbit dynamics",
 "For any Earth-orbit state, epoch and parameters, each force model returns the acceleration of its textbook formula in the inertial frame: two-body, J2, normalised spherical harmonics up to the chosen degree and order (field rotated by the Earth rotation angle at UT1), Sun/Moon/custom third bodies as direct minus indirect attraction, drag against the co-rotating atmosphere with the density at the geodetic height, solar pressure (4.56e-6 N/m² at 1 AU, cannonball) with no, cylindrical or conical Earth shadow, the Schwarzschild term, constant and once/twice-per-revolution accelerations in radial-transverse-normal axes. Built-in densities follow their exponential or log-linear table law; a configuration or registry composite is the sum of exactly the enabled parts. Thrust acts only inside [start, stop) and burns obey the rocket equation; missing context data, states below the surface or reference radius, undefined local frames, unknown models, wrong parameters and non-physical thrust data are refused.",
 "any state above 6450 km (poles and shadow boundaries included), gravity fields to degree 8 (lateral part away from the polar axis), any ephemeris positions",
 "The tests evaluate most models at one axis-aligned state and check signs or orders of magnitude; swapped axes, units, wrong shadow regimes, wrong coefficients and lost cross terms only show against independent formulas at arbitrary states.",
 ["src/astro/dynamics/forces/geopotential.rs", "src/astro/dynamics/forces/drag.rs", "src/astro/dynamics/forces/srp.rs", "src/astro/dynamics/forces/third_body.rs", "src/astro/dynamics/forces/relativity.rs", "src/astro/dynamics/forces/empirical.rs", "src/astro/dynamics/density.rs", "src/astro/dynamics/gravity/egm_low_degree.rs", "src/pod/force/registry.rs", "src/pod/force/config.rs", "src/pod/force/empirical_periodic.rs", "src/pod/force/thrust.rs", "src/pod/force/low_thrust.rs"],
 [("force models", "src/astro/dynamics/forces/mod.rs"), ("registry and configuration", "src/pod/force/registry.rs"), ("density", "src/astro/dynamics/density.rs"), ("thrust", "src/pod/force/thrust.rs")],
 tech="runtime monitor: independent textbook evaluation (Cunningham harmonics, disc integration of the penumbra, direct differences) over seeded states", note=NOTE)
prop("C16", "Estimation: least squares, Gauss-Newton, Kalman filter, noise",
 "For any well-posed set of observation rows, the weighted least-squares solution is the minimiser of the weighted residual sum (update, inverse normal matrix as covariance, chi-square over observations minus parameters), whatever the row order or repeated indices; invalid rows are refused without leaving a trace, and a parameter no row observes is an error. Gauss-Newton adds each solved update to the parameters, reports convergence only once the last relative update is below its tolerance (a stationary point; the truth for exact data), and otherwise reports exhaustion after exactly the allowed iterations. The orbit filter predicts covariance as transition-propagated plus process noise and updates state, covariance, innovation variance and normalised innovation squared as the Kalman update (symmetric, variances never growing), leaving everything untouched on invalid input; process-noise matrices equal their closed forms for white acceleration, Gauss-Markov and empirical terms, schedules apply half-open intervals of elapsed time, and invalid parameters are refused.",
 "up to 12 parameters with scaled condition below 1e4, any filter history of up to 23 steps, any noise parameters",
 "The tests solve one or two tiny problems; a wrong weight, lost cross term, asymmetric update, premature convergence or swapped block only shows on random dense problems against an independent orthogonal-factorisation solution.",
 ["src/pod/estimation/wls.rs", "src/pod/estimation/nonlinear.rs", "src/pod/estimation/sequential.rs", "src/pod/process/noise.rs", "src/pod/problem/covariance.rs"],
 [("normal equations", "src/pod/estimation/wls.rs"), ("Gauss-Newton", "src/pod/estimation/nonlinear.rs"), ("EKF", "src/pod/estimation/sequential.rs"), ("process noise", "src/pod/process/noise.rs")],
 tech="runtime monitor: Householder QR, textbook Kalman and closed-form oracles over generated problems and operation histories, iterations recorded through the callback", note=NOTE)
prop("C17", "Observation models, range corrections and residual statistics",
 "For any geometry, clocks, atmosphere settings and frequency, the pseudorange residual is measured minus (range + receiver clock - satellite clock of that PRN and epoch + Saastamoinen delay + Klobuchar delay scaled from L1 + Earth-rotation term + relativistic clock term), the carrier residual the same with the ionosphere subtracted and wavelength times ambiguity added, also in cycles, and the laser-ranging residual measured minus twice (light-time-corrected range + elevation-limited Marini-Murray delay + Shapiro delay). Range corrections (phase centre, Shapiro, station displacement) apply in the order they were added, each along the line of sight with its physical sign. Batches evaluate exactly the observations of the asked epoch in insertion order, orbit differences are resolved radial/transverse/normal about the reference orbit in metres, and summaries (overall, per group, laser validation) equal the defining mean, sample deviation, rms and extremes.",
 "any epoch and geometry away from the line through the centre of the Earth",
 "The tests check signs or zero cases at axis-aligned geometry; a wrong sign, factor, unit, frequency scaling, clamp or group key only shows against the full equation at arbitrary geometry.",
 ["src/pod/observation/gnss_obs.rs", "src/pod/observation/slr_obs.rs", "src/pod/observation/corrections.rs", "src/pod/observation/batch.rs", "src/pod/qc/orbit_compare.rs", "src/pod/qc/residuals.rs", "src/pod/qc/slr_validation.rs"],
 [("GNSS", "src/pod/observation/gnss_obs.rs"), ("SLR", "src/pod/observation/slr_obs.rs"), ("corrections", "src/pod/observation/corrections.rs"), ("statistics", "src/pod/qc/residuals.rs")],
 tech="runtime monitor: independent evaluation of each measurement equation and statistic over seeded geometry and settings", note=NOTE)
prop("C20", "Geodesy and CCSDS text formats: reading, writing, refusing",
 "For any content the formats can represent, reading an OEM (KVN and XML), OPM, TDM, SP3, ANTEX, ORBEX, SINEX, CPF, CRD, RINEX navigation, observation or DORIS, EOP C04, vgosDB or SCK document returns exactly its values, and reading what the writers produce returns the written records to the printed resolution, rounding carries included. A malformed, incomplete or impossible record is an error where the reader is strict and only that record is dropped where it is permissive; the streaming SP3 reader delivers the same epochs as the batch reader. Earth-orientation tables interpolate linearly between the daily entries, hold the end values outside, and do not interpolate across a UT1 leap.",
 "generated documents of up to a few hundred records, epochs 1975-2070 including optional fields, comments, CRLF and foreign records, with and without one injected fault",
 "The tests read one sample file per format; columns, units, optional fields, carries at 59.999... s and fault handling only fail for other contents.",
 ["src/formats/ccsds/oem.rs", "src/formats/ccsds/opm.rs", "src/formats/ccsds/tdm.rs", "src/formats/igs/sp3.rs", "src/formats/igs/antex.rs", "src/formats/igs/orbex.rs", "src/formats/igs/sinex.rs", "src/formats/ilrs/cpf.rs", "src/formats/ilrs/crd.rs", "src/formats/rinex/nav.rs", "src/formats/rinex/obs.rs", "src/formats/rinex/doris.rs", "src/formats/iers/eop.rs", "src/formats/vlbi/vgosdb.rs", "src/formats/sck.rs"],
 [("shared epochs", "src/formats/mod.rs"), ("SP3", "src/formats/igs/sp3.rs"), ("RINEX", "src/formats/rinex/nav.rs"), ("OEM", "src/formats/ccsds/oem.rs"), ("EOP", "src/formats/iers/eop.rs")],
 tech="runtime monitor: independent document generator, write/read comparison and fault injection", note=NOTE)
prop("C18", "Readers survive arbitrary input",
 "No reader of the library (OEM, OPM, TDM, SP3, ANTEX, ORBEX, SINEX, CPF, CRD, RINEX, DORIS, EOP, vgosDB, SCK, ADS-B frames and CPR, TLE and OMM, SPICE text kernels, SPK, CK, catalog CSV) panics, aborts, overflows the stack, hangs or allocates without bound on any byte sequence: it returns a value or an error. The same holds for the queries and writers applied to whatever was accepted.",
 "inputs up to 400 kB: valid documents under byte, token, line, column, repetition, truncation and binary-word mutations, and random bytes",
 "The tests read valid samples and a few hand-written errors; crashes hide in multi-byte characters at column cuts, huge numbers, counts that wrap, cycles and nesting that no sample contains.",
 ["src/formats/ccsds/oem.rs", "src/formats/igs/sp3.rs", "src/formats/igs/antex.rs", "src/formats/rinex/obs.rs", "src/formats/tle/parse.rs", "src/formats/tle/omm/xml.rs", "src/formats/spice/daf.rs", "src/formats/spice/spk.rs", "src/formats/spice/ck.rs", "src/formats/spice/text.rs", "src/formats/adsb/mod.rs", "src/formats/sck.rs", "src/formats/iers/eop.rs", "src/catalogs/ingest.rs"],
 [("all readers", "src/formats/mod.rs"), ("kernel loading", "src/spice/context.rs")],
 tech="runtime monitor: mutation fuzzing in watched worker processes (panic and crash capture, CPU watchdog, metering allocator, overflow checks)", note=NOTE)
prop("C21", "SPICE kernels: text, clocks, orientation, frames, attitude",
 "For any kernel content, the text reader returns every assigned name with its values in order (continuations, comments, D exponents, strings, data and text sections), the leap-second kernel changes its offset exactly at the listed UTC midnights, clock coefficients convert both ways, and instrument, frame and body constants come back as written. For any two frames and any epoch the rotation between them is the composition of the chains defined by the last loaded fixed-offset matrices (stored column by column) and pole/prime-meridian polynomials; attitude between two records is the constant-rate rotation between them. Undefined, incomplete, cyclic or malformed definitions and epochs outside coverage are errors, and the last loaded ephemeris and leap-second kernel wins.",
 "generated kernels in any order, letter case, number style and layout, frame chains up to 9 links over 3 kernels, epochs within 95 years of J2000",
 "The tests read one short kernel of each kind with diagonal or identity matrices and zero rates; transposed matrices, mirrored rotations, wrong chain order, late leap seconds, cycles and damaged text only show on generated kernels.",
 ["src/formats/spice/text.rs", "src/formats/spice/lsk.rs", "src/formats/spice/pck.rs", "src/formats/spice/fk.rs", "src/formats/spice/sclk.rs", "src/formats/spice/ik.rs", "src/formats/spice/ck.rs", "src/spice/context.rs", "src/spice/kernel_set.rs"],
 [("text kernels", "src/formats/spice/text.rs"), ("frame chains", "src/spice/context.rs"), ("leap seconds", "src/formats/spice/lsk.rs"), ("attitude", "src/formats/spice/ck.rs")],
 tech="runtime monitor: kernels generated from random models, every query compared with the model (axis-angle and matrix algebra independent of the library)", note=NOTE)
prop("C22", "ADS-B: frames, fields and compact positions",
 "A 28-digit extended squitter is accepted exactly when its downlink format is 17 or 18 and its 24-bit parity is right: every frame with up to three wrong bits, an error burst of up to 24 bits, a foreign character or a wrong length is refused, and address, type, call sign, altitude, position fields, ground speed, track and climb rate of an accepted one are those of the standard's bit fields, absent when the transponder marks them unavailable. For any aircraft position, decoding the even/odd pair (up to 3 NM apart) or one frame against a reference within half a zone returns it within half a resolution step with longitude in [-180, 180); pairs from different longitude zones, latitudes beyond a pole, fields wider than 17 bits and non-finite references are refused.",
 "any payload; any position on the globe including poles, date line and zone limits (closer than 1e-9 degrees to a zone limit excepted); arbitrary unrelated pairs",
 "The tests decode one published pair and two frames; zone limits, hemispheres, the date line, the odd-latest branch, negative components, saturated or missing fields and multi-bit damage need an encoder and many positions.",
 ["src/formats/adsb/mod.rs", "src/formats/adsb/cpr.rs"],
 [("frames and fields", "src/formats/adsb/mod.rs"), ("position decoding", "src/formats/adsb/cpr.rs")],
 tech="runtime monitor: independent encoder of the standard (tabulated zone limits, integer decoding, polynomial division) with bit-error injection", note=NOTE)
prop("C23", "Star catalog: reading, proper motion, cone searches",
 "For any catalog, centre, radius, magnitude limit and quality demand, a cone search returns exactly the records whose great-circle distance from the centre is at most the radius and which pass the filter, each once and in catalog order, whatever the hemisphere, pole, wrap-around or chunk size; a search at an epoch does the same with every star first moved by its proper motion, linear in both angles, over a pole if need be. A catalog table in any column order, with comments, empty optional cells and foreign columns is read to exactly its values; a missing required cell or unreadable number is an error naming that column and line.",
 "up to 1500 records per catalog, any centre and radius 0 to 180 degrees, epochs 1800-2200, proper motions up to 1000 arcsec per year, tables of up to 300 rows",
 "The tests search three stars around one centre a degree wide; errors of the distance formula, poles, the wrap at 0 h, chunk borders, filters without magnitude and column order only show against an independent scan of many configurations.",
 ["src/catalogs/catalog.rs", "src/catalogs/record.rs", "src/catalogs/ingest.rs"],
 [("searches", "src/catalogs/catalog.rs"), ("distance, motion and filter", "src/catalogs/record.rs"), ("table reader", "src/catalogs/ingest.rs")],
 tech="runtime monitor: brute-force vector scan as oracle for every search, generated tables with fault injection", note=NOTE)
prop("C24", "Mission geometry: pointing, shadows, masks, solar times",
 "For any site and target, pointing, slant range, range rate and light time are those of the geometry in the site's east-north-up axes. For any bodies, a line of sight is blocked exactly when the segment meets the sphere, and a satellite is in sunlight, penumbra (annular included) or umbra according to the true angular radii and separation of light source and body, with the hidden share of the disc between. A terrain mask interpolates its samples around the whole circle whatever their order and winding, local solar times and the angle of the Sun to an orbit plane follow their definitions, a field of view contains exactly the angles up to its edge, and the mission registry returns what was last stored under each name.",
 "any site, poles included, ranges 10 m to 1e12 m, angular radii up to 75 degrees, masks of up to 8 samples, registry histories of up to 40 steps",
 "The tests check one or two axis-aligned cases each; wrong axes, radians for degrees, planar shortcuts near the body, samples beyond a full turn and segments that end before the body only show for arbitrary geometry.",
 ["src/mission/geometry/az_el_range.rs", "src/mission/geometry/eclipse.rs", "src/mission/geometry/occultation.rs", "src/mission/geometry/terrain_mask.rs", "src/mission/geometry/orbit_relative.rs", "src/mission/geometry/fov.rs", "src/mission/context.rs"],
 [("pointing", "src/mission/geometry/az_el_range.rs"), ("shadows", "src/mission/geometry/occultation.rs"), ("terrain", "src/mission/geometry/terrain_mask.rs"), ("registry", "src/mission/context.rs")],
 tech="runtime monitor: configurations constructed from the answer, spherical ring integration for the hidden share, model-based histories", note=NOTE)
prop("C29", "Atmosphere, passbands, moonlight, sky grids, aircraft",
 "For any zenith angle and wavelength, airmass, Rayleigh and aerosol depth, site profiles, transmission, scattering phase, ozone, airglow enhancement, the Bessell passbands and lunar albedo and radiance are those of their published formulas and tables; airmass grows towards the horizon, layers multiply, and unusable airglow or moonlight inputs give NaN, never a number. A sky grid emits exactly as many cells as it announces, all inside its altitude range with azimuths in [0, 360), ordered, each carrying its solid angle, together those of the zone covered. Standard-atmosphere pressure is in hydrostatic balance and inverts, geopotential height is the integral of gravity, and a dead-reckoned aircraft follows its great circle to second order in the distance flown.",
 "any zenith angle below 90 degrees, wavelengths 200-3000 nm, grids with 1 to 400 degree steps, aircraft within 120 s of the report and 80 degrees of latitude",
 "The tests sample a few wavelengths and angles per model and grids whose steps divide the range; branch limits, table ends, ring counts, ties and non-finite inputs need a sweep against independent evaluation.",
 ["src/atmosphere/airmass.rs", "src/atmosphere/rayleigh.rs", "src/atmosphere/mie.rs", "src/atmosphere/profile.rs", "src/atmosphere/scattering.rs", "src/atmosphere/ozone.rs", "src/atmosphere/airglow.rs", "src/photometry/passbands/bessell1990.rs", "src/event/lunar/photometry.rs", "src/coordinates/sampling.rs", "src/bodies/aircraft/isa.rs", "src/bodies/aircraft/inner.rs"],
 [("airmass", "src/atmosphere/airmass.rs"), ("scattering", "src/atmosphere/rayleigh.rs"), ("moonlight", "src/event/lunar/photometry.rs"), ("sky grid", "src/coordinates/sampling.rs"), ("aircraft", "src/bodies/aircraft/isa.rs")],
 tech="runtime monitor: independent re-evaluation of the published models, ray geometry and quadrature; sky grids reassembled ring by ring", note=NOTE)
prop("C30", "Built-in bodies, stars and observatories; builders; targets",
 "Every built-in planet, dwarf planet, moon, star, asteroid, comet, Lagrange point and observatory carries the published physical constants, place and orbit of that body: its orbit has the right shape, plane and apsides, planets stand where the built-in ephemeris puts them and small bodies pass perihelion when they did. Builders return exactly what they were given and refuse incomplete descriptions, and periods and rotations derived from it obey their laws. A tracked body, star, direction or coordinate reports at any instant the place its own ephemeris or stored value gives, and a target keeps its position, time and proper motion through updates and transformations.",
 "all built-in constants; any builder field subset and values; any instant 1900-2100 for tracked bodies",
 "The tests compare constants with themselves or check a few fields; a wrong digit, unit, sign or epoch in a table, or a builder that drops one optional field, needs independent values and round trips.",
 ["src/bodies/solar_system.rs", "src/bodies/catalog.rs", "src/bodies/planets.rs", "src/bodies/asteroid.rs", "src/bodies/comet.rs", "src/bodies/satellite.rs", "src/bodies/stars.rs", "src/catalogs/observatories.rs", "src/targets/target.rs", "src/targets/trackable.rs", "src/targets/transform.rs"],
 [("planets and moons", "src/bodies/solar_system.rs"), ("builders", "src/bodies/planets.rs"), ("stars", "src/bodies/catalog.rs"), ("observatories", "src/catalogs/observatories.rs"), ("targets", "src/targets/target.rs")],
 tech="runtime monitor: built-in values against an independent table and against the ephemeris, builder round trips on random field subsets, tracked places recomputed", note=NOTE)

prop("C25", "The C interface mirrors the Rust library and stays memory-safe",
 "Every C function returns the value, units, frame and centre tag that the corresponding Rust call gives for the same arguments. Null pointers, invalid numbers, unsupported frames or centres and damaged text or kernel files come back as an error status with the outputs untouched, a failure inside the library never crosses into the caller, and no call reads or writes outside the memory it was given. Handles and arrays given back to their matching free function leave no memory behind.",
 "any C-representable argument, including null, NaN, infinite and out-of-range values; any text or kernel bytes; any call order that respects handle ownership",
 "The C crate's tests make a few calls with good arguments and one null each; swapped components, a missing validation, a wrong buffer length or a leak needs comparison with the Rust answer on every function, over hostile arguments, with every memory access watched.",
 ["siderust-ffi/src/altitude.rs", "siderust-ffi/src/azimuth.rs", "siderust-ffi/src/bodies.rs", "siderust-ffi/src/coordinates.rs", "siderust-ffi/src/ephemeris.rs", "siderust-ffi/src/phase.rs", "siderust-ffi/src/target.rs", "siderust-ffi/src/types.rs", "siderust-ffi/src/ffi_utils.rs"],
 [("coordinates", "siderust-ffi/src/coordinates.rs"), ("targets", "siderust-ffi/src/target.rs"), ("searches", "siderust-ffi/src/altitude.rs"), ("lunar phases", "siderust-ffi/src/phase.rs"), ("memory hand-over", "siderust-ffi/src/ffi_utils.rs")],
 tech="AddressSanitizer over a monitored C-call workload: each call compared with the Rust answer, outputs in exactly sized patterned blocks, allocation balance counted", note=NOTE)
prop("C26", "Products of an orbit determination run",
 "Orbit files written from a series of states carry every state once, in order, at its instant in the time system they declare, in the published columns, under a header whose start, interval, day, week, count, satellite and frame are those of the series. Residual tables, quality reports and run manifests give back every value written; a residual row is on the output as soon as it is written, a manifest is the same bytes whatever order its files were listed in, and dataset entries hold the size and SHA-256 of the data. A product that cannot be written completely is reported as an error, and product names state analysis centre, date, span, sampling and type.",
 "any series of 1 to 20 states between 1976 and 2050, any residual records, any manifest, any bytes, any calendar date from GPS week 0, any sink that fails after any number of bytes",
 "The tests count lines of one five-state product and compare one name per helper; a header that ignores its states, a shifted column, a lost flush or an ignored write error shows only when files are parsed independently over many series and failing devices.",
 ["src/pod/product/orbit.rs", "src/pod/product/naming.rs", "src/pod/product/residuals_csv.rs", "src/pod/product/residuals_parquet.rs", "src/pod/product/qc_json.rs", "src/pod/product/manifest.rs", "src/pod/run/manifest.rs", "src/pod/run/dataset.rs", "src/checksum.rs", "src/pod/problem/arc.rs", "src/pod/observation/batch.rs"],
 [("orbit files", "src/pod/product/orbit.rs"), ("residual tables", "src/pod/product/residuals_csv.rs"), ("manifests", "src/pod/run/manifest.rs"), ("names", "src/pod/product/naming.rs"), ("digests", "src/checksum.rs")],
 tech="runtime monitor: products parsed back by published columns and by other libraries, SHA-256 re-implemented, recording sinks that fail at any byte", note=NOTE)
prop("C27", "Stored values come back unchanged",
 "Every value the library can serialize - positions with their centres, sites and body orbits, directions, orbits of each kind, proper motions and coordinate samples, lunar phases, estimation parameters, covariances, residuals and run records - is read back from JSON as the same value, and a restored orbit gives the same places. A document with a required entry missing, of the wrong type or cut short is refused, and orbital elements that no constructor accepts are not accepted from a document either.",
 "any finite field values, any strings, any option present or absent, any one entry removed, replaced or nulled",
 "The tests round-trip a few values by hand and never damage a document; a field skipped, defaulted, renamed on one side or restored without the derived constants needs every type and every field exercised with distinct values.",
 ["src/astro/orbit.rs", "src/astro/conic.rs", "src/astro/proper_motion.rs", "src/coordinates/centers.rs", "src/targets/target.rs", "src/event/lunar/phase.rs", "src/pod/problem/parameter.rs", "src/pod/problem/covariance.rs", "src/pod/run/dataset.rs"],
 [("orbits", "src/astro/orbit.rs"), ("conics", "src/astro/conic.rs"), ("body centres", "src/coordinates/centers.rs"), ("samples", "src/targets/target.rs"), ("estimation parameters", "src/pod/problem/parameter.rs")],
 tech="runtime monitor: generated values through a document tree and text, compared bit for bit; restored orbits propagated; every document entry damaged in turn", note=NOTE)
prop("C28", "Answers depend on their arguments only",
 "For any sequence of calls, on any number of threads, each call of the library's computations - frame rotations, Earth orientation, ephemerides, Lagrange points, horizontal places, searches, lunar phases, kernel and TLE states, tables - returns what the same call returns as the first one in a cold process: bit-identical, whatever was asked before it, by whom, in which order, for instants and sites however close, and whether objects are shared or private. Nothing an earlier call saw is carried over into a later answer.",
 "any order and interleaving of calls over 1 to 8 threads and any process; instants identical, almost identical (1e-7 d) or far apart; shared and private objects",
 "Each test makes a handful of calls in a fixed order; a cache keyed too coarsely, a table filled with the first caller's values or an initialization race shows only when the same queries are put in other orders, threads and processes.",
 ["src/coordinates/transform/frames/bias.rs", "src/coordinates/transform/context.rs", "src/ephemeris/lagrange/embedded.rs", "src/event/lunar/moon_cache.rs", "src/atmosphere/ozone.rs", "src/photometry/passbands/bessell1990.rs", "src/astro/nutation/mod.rs", "src/formats/spice/spk_kernel.rs", "src/event/search/periods.rs"],
 [("shared tables", "src/ephemeris/lagrange/embedded.rs"), ("search caches", "src/event/lunar/moon_cache.rs"), ("kernel objects", "src/formats/spice/spk_kernel.rs"), ("models by context", "src/coordinates/transform/context.rs")],
 tech="runtime monitor: recorded answers compared bit for bit over permuted orders, racing threads, fresh threads, private objects and cold processes", note=NOTE)

prop("C31", "Faults of the medium reach the caller",
 "For every reader and writer and every byte at which its source or sink fails, whatever the kind of error, the call reports that error: no reader that was handed a failure returns a shortened document as if it were whole, and no writer reports success unless the sink took every byte of the document. What a failed sink did take is the beginning of the document. Delivery in pieces of any size, short writes and interrupted calls change neither what is read nor what is written. Missing, unreadable, non-text and cut-short files and full devices are errors, reading a file gives what its text gives, and a cut-short kernel never yields a number that the whole one would not.",
 "all stream readers (OEM, OPM, TDM, SP3, ANTEX, ORBEX, SINEX, vgosDB, RINEX, EOP), all writers and orbit product writers, file readers including SPK, CK and kernel pools; documents up to 30 kB, six kinds of error, pieces of 1 to 8191 bytes",
 "The tests read from memory and write to vectors, where nothing ever fails; a dropped result, a line iterator that stops at the first error or a buffered writer never flushed only shows when the medium fails at the right byte.",
 ["src/formats/ccsds/oem.rs", "src/formats/ccsds/opm.rs", "src/formats/ccsds/tdm.rs", "src/formats/igs/sp3.rs", "src/formats/igs/antex.rs", "src/formats/igs/orbex.rs", "src/formats/igs/sinex.rs", "src/formats/rinex/obs.rs", "src/formats/rinex/nav.rs", "src/formats/rinex/doris.rs", "src/formats/ilrs/cpf.rs", "src/formats/ilrs/crd.rs", "src/formats/iers/eop.rs", "src/formats/vlbi/vgosdb.rs", "src/formats/spice/kernel.rs", "src/formats/spice/ck.rs", "src/pod/product/orbit.rs"],
 [("stream readers", "src/formats/igs/sp3.rs"), ("stream writers", "src/formats/ccsds/oem.rs"), ("files", "src/formats/rinex/nav.rs"), ("kernels", "src/formats/spice/kernel.rs")],
 tech="fault injection: instrumented sources and sinks fail, stall, fragment and interrupt at every byte; online monitor of what was delivered against what was reported", note=NOTE)
prop("C32", "Loaded Earth-orientation data is used in full",
 "Once a table of Earth-orientation parameters has been loaded at run time, every lookup inside its span returns the values of that table at that UTC instant (linear between the daily rows in UT1-TAI, pole, celestial-pole offsets and length of day, in the documented units), every lookup outside it is refused by the fallible forms and answered with zeros by the total forms, and the reported span and length are those of the table. TT is converted to the UTC instant the table is asked for, UT1 is that UTC plus the provider's UT1-UTC, and sidereal time, all frame rotations, and horizontal coordinates follow, also through entry points that take no context: they equal what the same numbers give when handed in by a custom provider. A new table takes effect at once, and a lookup concurrent with the change answers from the old table or the new one, never a mixture.",
 "generated IERS tables of 2 to 6000 days between 1973 and 2027, with and without pole and offset columns, across leap seconds; lookups from 400 days before to 400 days after; reloads under six reader threads",
 "Nothing in the test suite ever loads a table: all of it runs on the zero fallback, so a wrong time scale in the lookup, a wrong unit, a column mixed up or a stale copy kept after a reload passes every test.",
 ["src/astro/eop.rs", "src/astro/earth_rotation.rs", "src/coordinates/transform/context.rs", "src/coordinates/transform/providers/mod.rs", "src/event/horizontal.rs"],
 [("lookup", "src/astro/eop.rs"), ("time scales", "src/astro/earth_rotation.rs"), ("frames", "src/coordinates/transform/providers/frames_earth.rs"), ("context", "src/coordinates/transform/context.rs")],
 tech="online monitor over generated runtime data: independent interpolation of each loaded table, differential check against a custom provider, reloads raced by readers whose every answer is attributed to one table", note=NOTE)
