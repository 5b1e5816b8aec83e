#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from one list (run after editing it)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

P = []


def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=None, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                  why=why, files=files.split(), mech=mech, observe=observe, note=note))


SMALL = "The tests fix one or two arrays; they cannot range over every array length, bin layout, unit and special value (nan, infinities, values on an edge, empty input)."

p("P01", "Every value is assigned to exactly the bin that contains it",
  "For strictly increasing bin edges, looking up values returns for each value the index of the only bin with lower edge <= value < upper edge and marks it valid; values below the first edge get the underflow index and values at or above the last edge, or nan, get the overflow index, and both are marked invalid. The result does not depend on the unit the values are given in, incompatible units raise an error, and neither the values nor the edges are modified.",
  "all value arrays (any length, nan and infinities included), all strictly increasing edges (any count, infinite ends included), all convertible units", SMALL,
  "pyirf/binning.py", [("calculate_bin_indices", "pyirf/binning.py:133")])
p("P02", "Bin edge utilities are exact and inverse to each other",
  "The centre of a bin is the mean of its edges; splitting edges into lower and upper bounds and joining them again gives the edges back, and joining rejects bounds that do not line up; adding overflow bins keeps every inner edge and adds one bin down to 0 (or minus infinity) and one up to infinity, unless already there. Edges per decade start at the lower energy, never exceed the upper energy, and are equidistant in the logarithm with the requested number per decade.",
  "all edge arrays of any length, all units, all energy ranges and bin counts per decade", SMALL,
  "pyirf/binning.py", [("bin_center", "pyirf/binning.py:19"), ("join_bin_lo_hi", "pyirf/binning.py:23"), ("split_bin_lo_hi", "pyirf/binning.py:50"), ("add_overflow_bins", "pyirf/binning.py:72"), ("create_bins_per_decade", "pyirf/binning.py:100")])
p("P03", "The histogram table counts every event in its bin, once, also weighted",
  "The table has one row per bin with its lower edge, upper edge and centre; the number of events in a row is the number of events whose value lies in that bin and the weighted number is the sum of their weights (the plain number if there are no weights). If particle types are present, the same holds per type, so the per type counts add up to the total.",
  "all event tables (any number of events, particle types and weights), all bin edges and units", SMALL,
  "pyirf/binning.py", [("create_histogram_table", "pyirf/binning.py:183")])
p("P04", "Rebinning a histogram conserves the integral",
  "Resampling a histogram to new edges distributes the contents as if uniform inside each old bin: every new bin holds the part of the cumulative content between its edges, so the total is conserved when the new edges span the old ones, nothing is created outside of the old range, and non negative contents stay non negative. This holds along any axis, with every other index treated independently, and for empty histograms.",
  "all contents (any dimension and axis), all old and new strictly increasing edges", SMALL,
  "pyirf/binning.py", [("resample_histogram1d", "pyirf/binning.py:237")])
p("P05", "Spectra evaluate to their formula in any unit and event weights are flux ratios",
  "Power law, log parabola, power law with exponential gaussian and tabulated spectra return at every energy exactly the documented formula (tabulated: interpolation between the points, in log space where asked, zero or the documented rule outside), independent of the energy's unit, with the unit of the normalisation; a positive power law index is refused. The weight of an event is the ratio of target to simulated flux at its true energy, dimensionless.",
  "all energies, all spectral parameters, all convertible units", SMALL,
  "pyirf/spectral.py", [("calculate_event_weights", "pyirf/spectral.py:45"), ("PowerLaw.__call__", "pyirf/spectral.py:106"), ("LogParabola.__call__", "pyirf/spectral.py:215"), ("PowerLawWithExponentialGaussian.__call__", "pyirf/spectral.py:273"), ("TableInterpolationSpectrum.__call__", "pyirf/spectral.py:319")])
p("P06", "The simulated spectrum integrates to the simulated number of events",
  "The power law derived from a simulation, integrated over the simulated energy range, impact area, observation time and, for diffuse simulations, viewcone solid angle, gives back the simulated number of showers; the index is kept. Integrating a diffuse power law over a cone or ring multiplies by its solid angle and leaves the shape unchanged; point spectra refuse it.",
  "all simulations (any index, energy range, viewcone, impact, number of showers) and observation times, all units", SMALL,
  "pyirf/spectral.py", [("PowerLaw.from_simulation", "pyirf/spectral.py:112"), ("PowerLaw.integrate_cone", "pyirf/spectral.py:153")])
p("P07", "Sky geometry: separations, field of view offsets, position angles and coordinates",
  "The computed angle to the source, the field of view offset, the position angle and the gadf field of view coordinates of every event equal the spherical geometry formulas for that event's own directions and pointing, in the documented frame and sign convention. Offsets are in [0, 180] deg, position angles in [0, 360) deg, and the input table is not changed.",
  "all directions and pointings, all angle units, any number of events", SMALL,
  "pyirf/utils.py pyirf/coordinates.py", [("calculate_theta", "pyirf/utils.py:38"), ("calculate_source_fov_offset", "pyirf/utils.py:66"), ("calculate_source_fov_position_angle", "pyirf/utils.py:94"), ("calculate_source_fov_lonlat", "pyirf/utils.py:122"), ("gadf_fov_coords_lon_lat", "pyirf/coordinates.py:10"), ("gadf_fov_coords_theta_phi", "pyirf/coordinates.py:45")])
p("P08", "Solid angles are exact and input validation accepts exactly the valid tables",
  "The solid angle of a cone is 2 pi (1 - cos(angle)) and that of a longitude / latitude rectangle is its width in longitude times the difference of the sines of its latitudes, in steradian. Table validation raises exactly if a required column is missing or has a unit that cannot be converted to the required one, and histogram validation exactly if the bins of the two tables differ.",
  "all angles and units, all tables, required columns and units", SMALL,
  "pyirf/utils.py", [("cone_solid_angle", "pyirf/utils.py:172"), ("rectangle_solid_angle", "pyirf/utils.py:190"), ("check_table", "pyirf/utils.py:216"), ("check_histograms", "pyirf/utils.py:150"), ("is_scalar", "pyirf/utils.py:20")])
p("P09", "Li & Ma significance is formula 17, zero without excess, never nan for counts",
  "For all non negative counts in the on and off region and every positive on / off exposure ratio, the significance is the value of equation 17 of Li & Ma, with 0 for an empty on region or no positive excess, finite, and not decreasing when the on counts grow; scalars give scalars and arrays are treated element by element. No input is modified.",
  "all non negative counts (zero, non integer, arrays of any shape) and positive alpha", SMALL,
  "pyirf/statistics.py", [("li_ma_significance", "pyirf/statistics.py:9")])
p("P10", "Simulated showers are distributed over bins without losing or inventing any",
  "The expected number of simulated showers in a bin of energy, field of view offset, position angle or longitude and latitude is the simulated total times the fraction of the simulated power law spectrum and of the simulated viewcone solid angle that falls in the bin; it is zero outside of the simulated range, and bins that cover the range add up to the total. Axes come out in the documented order, in any unit, for every index including -1; asking for field of view bins of a point simulation raises.",
  "all simulations (index, energy range, viewcone, showers), all bin edges inside, outside or across the simulated range, all units", SMALL,
  "pyirf/simulations.py", [("SimulatedEventsInfo.calculate_n_showers_per_energy", "pyirf/simulations.py:72"), ("..._per_fov", "pyirf/simulations.py:120"), ("..._per_energy_and_fov", "pyirf/simulations.py:147"), ("..._3d_polar", "pyirf/simulations.py:181"), ("..._3d_lonlat", "pyirf/simulations.py:227"), ("_powerlaw_pdf_integral", "pyirf/simulations.py:295"), ("_viewcone_pdf_integral", "pyirf/simulations.py:311"), ("_fov_lonlat_grid_overlap", "pyirf/simulations.py:341")])
p("P11", "Effective area is selected over simulated events times the simulated area",
  "In every bin of true energy (and of offset, position angle, or longitude and latitude) the effective area is the number of selected events in the bin over the expected number of simulated showers in the bin, times the area of the disk with the maximum impact parameter; bins without simulated showers get 0, not nan or infinity. The axes follow the documented order and the inputs are not modified.",
  "all selections and simulations, all bin edges, all units", SMALL,
  "pyirf/irf/effective_area.py", [("effective_area", "pyirf/irf/effective_area.py:16"), ("effective_area_per_energy", "pyirf/irf/effective_area.py:32"), ("effective_area_per_energy_and_fov", "pyirf/irf/effective_area.py:55"), ("effective_area_3d_polar", "pyirf/irf/effective_area.py:92"), ("effective_area_3d_lonlat", "pyirf/irf/effective_area.py:142")])
p("P12", "Energy dispersion and migration matrix from events are normalised event fractions",
  "Each entry of the energy dispersion is the number of selected events in its true energy, migration and offset bin over the events in all migration bins of that energy and offset, divided by the migration bin width, so that it integrates to one over migration; each row of the migration matrix is the fraction of its events per reconstructed energy and adds up to one. Rows without events are zero, never nan.",
  "all event tables, all bin edges and units", SMALL,
  "pyirf/irf/energy_dispersion.py", [("energy_dispersion", "pyirf/irf/energy_dispersion.py:32"), ("energy_migration_matrix", "pyirf/irf/energy_dispersion.py:88"), ("_normalize_hist", "pyirf/irf/energy_dispersion.py:14")])
p("P13", "Converting energy dispersion to a migration matrix integrates the right interval",
  "For every new true and reconstructed energy bin, the entry of the migration matrix is the integral of the energy dispersion over the migration values that map the true energy bin's centre into the reconstructed bin, with the dispersion averaged over the overlapping original true energy bins. Entries are non negative, no entry depends on another offset, and the input is not modified.",
  "all dispersions, all original and new bin edges, all units", SMALL,
  "pyirf/irf/energy_dispersion.py", [("energy_dispersion_to_migration", "pyirf/irf/energy_dispersion.py:137")])
p("P14", "The PSF table is the normalised event density per solid angle",
  "Each entry of the PSF table is the number of events in its true energy, field of view offset and source offset bin over all events of that energy and field of view bin inside the source offset range, divided by the solid angle of the source offset ring, so that it integrates to one over solid angle. Bins without events are zero, never nan, and the axes are in the documented order.",
  "all event tables, all bin edges and units", SMALL,
  "pyirf/irf/psf.py", [("psf_table", "pyirf/irf/psf.py:7"), ("_normalize_psf", "pyirf/irf/psf.py:33")])
p("P15", "Background rates are weighted counts per energy, time and solid angle",
  "Each entry of the background rate is the sum of the weights (or the number) of the events in its reconstructed energy and field of view bin, divided by the bin's energy width, by the observation time and by the solid angle of that bin on the sphere. This holds for rings of offset and for longitude / latitude rectangles, for every bin layout and unit, without changing the input.",
  "all event tables, weights, bin edges, observation times and units", SMALL,
  "pyirf/irf/background.py", [("background_2d", "pyirf/irf/background.py:10"), ("background_3d_lonlat", "pyirf/irf/background.py:61")])
p("P16", "Percentile cuts are the percentile of the values in each bin",
  "The cut of each bin is the requested percentile (or percentiles) of exactly the values that fall in it, limited to the minimum and maximum value; bins with fewer than the minimum number of events get the fill value, or nan where none is given. Smoothing filters along the bins, bounds and centres of the bins are listed as given, units are kept, and the inputs are not modified.",
  "all values, bins, percentiles, fill values, limits and units", SMALL,
  "pyirf/cuts.py", [("calculate_percentile_cut", "pyirf/cuts.py:17")])
p("P17", "Binned cuts compare each value with the cut of its own bin",
  "Evaluating a binned cut applies the given comparison to each value and the cut of the bin its bin variable falls in, in consistent units; values outside all bins never pass. Comparing cuts of several irfs is true exactly if all of them have equal bins and equal cut values.",
  "all values, cut tables, comparison operators and units", SMALL,
  "pyirf/cuts.py", [("evaluate_binned_cut", "pyirf/cuts.py:154"), ("evaluate_binned_cut_by_index", "pyirf/cuts.py:120"), ("compare_irf_cuts", "pyirf/cuts.py:194")])
p("P18", "Relative sensitivity is the smallest flux scale meeting every requirement",
  "For non negative counts, the relative sensitivity scales the excess over background just so far that the significance target is met, and never less than the minimum number of signal events or the minimum fraction of the background require; with no positive excess it is infinite, with nan counts (or if the target is not met in the documented range of fluxes) it is nan, and negative counts raise. Scalars give scalars, and every element of an array is computed from its own counts only.",
  "all on and off counts (scalars and arrays), exposure ratios, targets and minimum requirements", SMALL,
  "pyirf/sensitivity.py", [("_relative_sensitivity", "pyirf/sensitivity.py:28"), ("relative_sensitivity", "pyirf/sensitivity.py:96")])
p("P19", "The sensitivity table combines signal and background of the same bin",
  "For histograms with identical bins the sensitivity table keeps the bins, and each row has the signal of its own bin and the background of its own bin scaled by the exposure ratio, with the relative sensitivity and significance computed from exactly those counts; differing bins raise. The inputs are not modified.",
  "all signal and background histograms, exposure ratios and targets", SMALL,
  "pyirf/sensitivity.py", [("calculate_sensitivity", "pyirf/sensitivity.py:166")])
p("P20", "Background estimation scales ring counts to the on region",
  "The estimated background of each energy bin is the sum of the weights (or the number) of the background events of that energy whose offset lies in the given ring, scaled by the area of the on region of that bin over the ring area and by the exposure ratio. The on region of a bin is the cone of the radius cut interpolated linearly to the bin centre, which is the cut of the bin itself where bins are equal; this also holds per particle type, and the input table is not changed.",
  "all background event tables (any number of events, weights and particle types), radius cuts, offset ranges, exposure ratios, bins and units", SMALL,
  "pyirf/sensitivity.py", [("estimate_background", "pyirf/sensitivity.py:278")])
p("P21", "Cut optimisation returns the best cuts and sensitivity among those scanned",
  "For every energy bin, the returned cut is the scanned cut with the best (smallest) relative sensitivity, the returned table holds exactly the sensitivity of that cut, and bins in which no cut gives a finite sensitivity are marked invalid. Signal and background are selected with the same cuts, and the input tables are not changed.",
  "all signal and background tables, cut efficiencies, bins and exposure ratios", SMALL,
  "pyirf/cut_optimization.py", [("optimize_cuts", "pyirf/cut_optimization.py:20"), ("optimize_gh_cut", "pyirf/cut_optimization.py:209")])
p("P22", "Resolutions and biases are the quantiles of the events in each energy bin",
  "Angular resolution is the requested quantile of the offsets, energy bias the median and energy resolution half the central 68 % inter quantile distance of the relative energy error, of exactly the events in each bin of the chosen energy; empty bins are nan. From an energy dispersion matrix, bias and resolution are the same quantiles of each row's migration distribution, and no input table is changed.",
  "all event tables, bins, quantiles, energy types and units, all dispersion matrices", SMALL,
  "pyirf/benchmarks/energy_bias_resolution.py pyirf/benchmarks/angular_resolution.py", [("angular_resolution", "pyirf/benchmarks/angular_resolution.py:13"), ("energy_bias_resolution", "pyirf/benchmarks/energy_bias_resolution.py:55"), ("energy_bias_resolution_from_energy_dispersion", "pyirf/benchmarks/energy_bias_resolution.py:121"), ("energy_resolution_absolute_68", "pyirf/benchmarks/energy_bias_resolution.py:15"), ("inter_quantile_distance", "pyirf/benchmarks/energy_bias_resolution.py:33")])
p("P23", "GADF export stores every value at its place with its bins and units",
  "Each exported FITS table has one row whose lower and upper bound columns are the bin edges and whose data column has the axes in the reverse order the format demands (energy fastest), so that every entry is the input value of its bin, with the input's unit. The mandatory classification header cards of the format are set (point like or full enclosure as asked), extra header cards are added, and the inputs are not modified.",
  "all irf arrays, bin edges, units and header cards", SMALL,
  "pyirf/io/gadf.py", [("create_aeff2d_hdu", "pyirf/io/gadf.py:35"), ("create_psf_table_hdu", "pyirf/io/gadf.py:92"), ("create_energy_dispersion_hdu", "pyirf/io/gadf.py:148"), ("create_background_2d_hdu", "pyirf/io/gadf.py:215"), ("create_background_3d_hdu", "pyirf/io/gadf.py:269"), ("create_rad_max_hdu", "pyirf/io/gadf.py:335")])
p("P24", "Gammapy objects carry the same irf, with the axes gammapy expects",
  "The created gammapy effective area, energy dispersion and PSF have axes with exactly the given bin edges and units, named and ordered as gammapy requires (energy_true, offset, rad or migra), and at every axis index the value given for that bin, in the unit given. Values whose shape differs from that of the bins are rejected, and the inputs are not modified.",
  "all irf arrays, bin edges and units", SMALL,
  "pyirf/gammapy.py", [("create_effective_area_table_2d", "pyirf/gammapy.py:22"), ("create_psf_3d", "pyirf/gammapy.py:62"), ("create_energy_dispersion_2d", "pyirf/gammapy.py:103")])
p("P25", "Irf estimators interpolate inside the grid, extrapolate outside, or refuse",
  "A component estimator asked for a target point inside the convex hull of its grid (borders included) answers with its interpolator, and outside with its extrapolator, or raises if none was given; targets of the wrong dimension raise. Grids, values and edges of inconsistent shape, or interpolators of the wrong kind, are rejected on construction.",
  "all grids in one or more dimensions, all target points, all values and edges", SMALL,
  "pyirf/interpolation/component_estimators.py pyirf/interpolation/base_interpolators.py pyirf/interpolation/base_extrapolators.py", [("BaseComponentEstimator.__call__", "pyirf/interpolation/component_estimators.py:102"), ("BaseComponentEstimator.__init__", "pyirf/interpolation/component_estimators.py:44"), ("DiscretePDFComponentEstimator.__init__", "pyirf/interpolation/component_estimators.py:162"), ("ParametrizedComponentEstimator.__init__", "pyirf/interpolation/component_estimators.py:285")], over=("inputs", "configurations"))
p("P26", "Interpolation coefficients reproduce the target and add up to one",
  "The coefficients for a target on a line segment or in a triangle add up to one and reproduce the target as the weighted sum of the grid points, are one and zero at the grid points, and are non negative inside; the distance and angle to facets used to pick the nearest simplex are the geometric ones. The nearest simplex to a target outside of the grid is one at minimal distance.",
  "all segments, triangles, simplices and target points", SMALL,
  "pyirf/interpolation/moment_morph_interpolator.py pyirf/interpolation/utils.py", [("linesegment_1D_interpolation_coefficients", "pyirf/interpolation/moment_morph_interpolator.py:103"), ("barycentric_2D_interpolation_coefficients", "pyirf/interpolation/moment_morph_interpolator.py:138"), ("plumb_point_dist", "pyirf/interpolation/utils.py:18"), ("point_facet_angle", "pyirf/interpolation/utils.py:72"), ("find_nearest_simplex", "pyirf/interpolation/utils.py:154")])
p("P27", "Interpolated distributions stay normalised and exact at the grid points",
  "Interpolating binned distributions (by quantiles or by moments) yields non negative distributions that integrate to one in the chosen normalisation, or are zero where an input distribution is empty, and reproduces the template at its own grid point to within the binning. Every remaining index is interpolated independently of the others, and the given templates are not changed.",
  "all grids, templates, bin edges, normalisations and targets inside the grid", SMALL,
  "pyirf/interpolation/quantile_interpolator.py pyirf/interpolation/moment_morph_interpolator.py pyirf/interpolation/utils.py", [("QuantileInterpolator.interpolate", "pyirf/interpolation/quantile_interpolator.py:225"), ("cdf_values", "pyirf/interpolation/quantile_interpolator.py:10"), ("norm_pdf", "pyirf/interpolation/quantile_interpolator.py:136"), ("moment_morph_estimation", "pyirf/interpolation/moment_morph_interpolator.py:183"), ("get_bin_width", "pyirf/interpolation/utils.py:8")])
p("P28", "Nearest neighbour lookup returns the template of a nearest grid point",
  "The nearest neighbour search returns, unchanged, the template of a grid point at the smallest distance to the target in the chosen norm, for every grid dimension and template shape, and rejects norms that are not positive integers. The given templates are not changed.",
  "all grids, templates, targets and norms", SMALL,
  "pyirf/interpolation/nearest_neighbor_searcher.py", [("BaseNearestNeighborSearcher.interpolate", "pyirf/interpolation/nearest_neighbor_searcher.py:68")])
p("P29", "Component estimators keep the physical form of the irf they estimate",
  "Estimated effective areas are non negative areas that equal the given ones at the grid points, with values below the minimum area treated as zero; estimated radius cuts are the fill value where the documented combination of grid points requires it and else the interpolation; estimated energy dispersions and PSFs are normalised along the axis they are given with. Units and axis order are those of the input, which is not changed.",
  "all grids, irfs, fill values, bin edges, units and target points", SMALL,
  "pyirf/interpolation/component_estimators.py", [("EffectiveAreaEstimator.__call__", "pyirf/interpolation/component_estimators.py:454"), ("RadMaxEstimator.__call__", "pyirf/interpolation/component_estimators.py:569"), ("EnergyDispersionEstimator.__call__", "pyirf/interpolation/component_estimators.py:750"), ("PSFTableEstimator.__call__", "pyirf/interpolation/component_estimators.py:849")])
p("P30", "Extrapolation is linear from the nearest simplex or the visible edges",
  "Extrapolating parameters continues the linear function of the nearest segment or triangle, so that it is exact for data linear in the grid coordinates, and blending over the visible edges combines these extrapolations with non negative weights that add up to one. Extrapolated distributions are non negative and integrate to one (or are zero), and the given templates are not changed.",
  "all one and two dimensional grids, templates and targets outside of the grid", SMALL,
  "pyirf/interpolation/nearest_simplex_extrapolator.py pyirf/interpolation/visible_edges_extrapolator.py", [("ParametrizedNearestSimplexExtrapolator.extrapolate", "pyirf/interpolation/nearest_simplex_extrapolator.py:96"), ("MomentMorphNearestSimplexExtrapolator.extrapolate", "pyirf/interpolation/nearest_simplex_extrapolator.py:206"), ("ParametrizedVisibleEdgesExtrapolator.extrapolate", "pyirf/interpolation/visible_edges_extrapolator.py:152"), ("find_visible_facets", "pyirf/interpolation/visible_edges_extrapolator.py:15")])

NA = {}



def main():
    os.environ.setdefault("PYTHONHASHSEED", "0")
    from engine import run
    H = run.load_contracts()
    by = {}
    for c in H.REGISTRY:
        by.setdefault(c.prop, []).append(c)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "observe_at": [n for n, _ in q["mech"]], "hook_needed": None}
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": q["quantifier"], "why_tests_cant": q["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for q in P:
        cs = by.get(q["id"])
        if not cs:
            na.append({"property": q["id"], "reason": NA.get(q["id"], "no contract for it has been written yet, so nothing is claimed")})
            continue
        bounded = [c.__name__ for c in cs if c.bounded]
        level = "exploration" if len(bounded) == len(cs) else "proof"
        note = f"{len(cs) - len(bounded)} of {len(cs)} contracts are discharged as proof obligations over reals and unbounded arrays from the current source (z3, cvc5 fallback)"
        if bounded:
            note += "; bounded stand-ins (contract evaluated on generated cases, not proved): " + ", ".join(bounded)
        note += ". Trusted: the engine, CPython, assumed contracts on numpy / astropy / scipy (cross-checked on the genuine library each run); floating point is treated as real arithmetic. A contract whose function changes to something the engine cannot execute falls back to generated cases and is reported as bounded in the evidence."
        checks.append({"property": q["id"], "quick_cmd": f"/opt/venv/bin/python check.py {q['id']} --tier quick", "thorough_cmd": f"/opt/venv/bin/python check.py {q['id']} --tier thorough",
                       "technique": "contracts on the real functions; verification conditions by symbolic execution of the current source, discharged by z3/cvc5" if level == "proof" else "contracts on the real functions, evaluated on generated inputs (bounded stand-in)",
                       "level": level, "level_note": note + ((" " + q["note"]) if q["note"] else ""),
                       **({"theorems": [c.__name__ for c in cs if not c.bounded]} if level == "proof" else {})})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo. known_findings.json lists repaired and open defects. See DESIGN.md."}, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
