#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, title
    P.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)),
        check=dict(property=id, quick_cmd="./check %s" % id, thorough_cmd="./check %s --tier thorough" % id,
                   evidence_file="evidence/%s.json" % id,
                   technique=technique, level="exploration", level_note=note)))


PCA = "attitude/orientation/pca.py"
AX = "attitude/error/axes.py"

prop("C01", "The fitted plane is the total-least-squares plane of the points",
     "For every set of three or more points that spans a plane, whatever its attitude, size, distance from the origin, number type or memory layout, the reported centre is the mean of the points, the axes are orthonormal, ordered by extent, and the third one is the normal of the plane minimising the sum of squared perpendicular distances. The reported singular values, eigenvalues, explained variance, coordinates in the fitted frame and residuals all describe those same points exactly (variance with n-1, proportions summing to one, residuals that are the perpendicular offsets). Fewer than three points are refused with an error.",
     ["inputs"], "all point clouds: sizes 3 to thousands, vertical, level and arbitrary planes, elongate and isotropic, coincident and collinear points, integer and float dtypes, any memory layout and offset",
     "Existing tests fit a handful of random planes and compare two of our own code paths; they never check optimality, nor clouds far from the origin, of other dtypes, or degenerate.",
     [PCA, "attitude/geom/util.py"], [("PCAOrientation.__init__ (centre, SVD)", PCA), ("rotated, residuals, eigenvalues, explained_variance", PCA)],
     "property-based testing (Hypothesis) against a constructed known frame, exact sums and rival planes",
     "Generated search, not proof: thousands of clouds per run; trusts numpy's SVD only through the optimality oracle; tolerances scale with coordinate magnitude.",
     ["attributes of a fit"])

prop("C02", "Fits follow the symmetries of the data",
     "Reordering, translating or uniformly scaling the points, repeating every point, or weighting all axes equally leaves the fitted orientation unchanged (lengths scale with the data). Rotating the points about the vertical changes every azimuth by exactly that angle and leaves dip and errors alone, a mirror image yields the mirrored plane, and an arbitrary rigid rotation carries the whole frame along. Angular errors are unchanged by every one of these except repetition. Unequal axis weights give the axes of the coordinates divided by them, and leave the centre alone.",
     ["inputs"], "all well-conditioned clouds and all drawn permutations, translations, scales, rotations, reflections, repetition counts",
     "No test transforms a data set and compares the two fits; sign and quadrant mistakes only show for particular attitudes.",
     [PCA, AX], [("PCAOrientation.__init__", PCA), ("strike_dip, rake, angular_errors", PCA)],
     "metamorphic property-based testing (Hypothesis)",
     "Metamorphic relations over generated clouds; tolerances from first-order perturbation theory of singular vectors.")

prop("C03", "Strike, dip and rake obey the geological conventions",
     "For every fitted plane the strike is an azimuth in [0, 360] clockwise from north (+y), the dip lies in [0, 90] degrees, and the plane dips towards strike + 90 (right-hand rule), so that strike and dip rebuild the fitted plane; dip direction agrees with them and rake is the in-plane angle in [0, 180] between the line of steepest slope, taken upwards for every fit, and the longest axis. None of this depends on the arbitrary signs of the axes, and level, vertical and axis-aligned planes give finite, valid values. The angle between two fits is the angle between their planes' upward normals.",
     ["inputs"], "all attitudes, including exactly level and vertical planes and all quadrants, with any signs of the axes",
     "Tests use a few fixed strikes and dips; quadrant, upside-down-axes and horizontal/vertical corner cases are not sampled.",
     [PCA, "attitude/geom/util.py", "attitude/geom/__init__.py", "attitude/orientation/base.py"],
     [("strike_dip, dip_direction, rake, strike_dip_rake", PCA), ("angle", "attitude/geom/util.py"), ("fit_angle", "attitude/geom/__init__.py")],
     "property-based testing (Hypothesis) against planes of known attitude",
     "Clouds are built around a plane of known strike, dip and elongation; covers level, vertical and axis-aligned planes explicitly.")

prop("C04", "Default angular errors are those of the documented noise model",
     "The hyperbolic axes and minimum/maximum angular errors reported for a fit equal the closed form of the noise-based model at 95% (Fisher F quantile with 2 and n-2 degrees of freedom), for every number of points and every spread. At any other confidence level the same closed form holds, and errors grow with confidence and with out-of-plane noise and shrink with more points. The minimum error never exceeds the maximum, and the minimum belongs to the longest axis.",
     ["inputs", "configurations"], "all clouds with resolved singular values, n from 4 to thousands, all confidence levels in (0, 1)",
     "Tests compare error code with itself or check that a plot is drawn; no test pins the numbers or their dependence on n and confidence.",
     [AX, PCA], [("noise_axes, noise_covariance, apply_error_scaling, fisher_statistic, angular_errors", AX), ("hyperbolic_axes, angular_errors", PCA)],
     "property-based testing (Hypothesis) against an independent closed-form model, plus monotonicity relations",
     "The oracle re-derives the model with the closed form of the F(2, m) quantile, so it shares no code with the library.")

prop("C05", "Every selectable error model computes its published formula",
     "Sampling-based, Francq, Babamoradi, regression and chi-squared-scaled error axes equal their closed forms for every fit, confidence level and option, and the Fisher statistic is the requested quantile of the F distribution. Choosing a model by name or by setting it on a fit changes the errors, and everything exported from them, to exactly that model. Converting between errors of planes and errors of normals round-trips exactly, and the angular error of any in-plane axis follows from the error axis and its length.",
     ["inputs", "configurations"], "all clouds, confidence levels, degrees of freedom, model options",
     "Only the default path and one comparison are exercised by tests, for one data set each.",
     [AX, "attitude/error/__init__.py", PCA], [("sampling_axes, francq_axes, babamoradi_axes, regression_axes, statistical_axes, hyperbolic_axes", AX), ("to_normal_errors, from_normal_errors, error_bounds, pca_to_mapping", "attitude/error/__init__.py")],
     "property-based testing (Hypothesis) against independent closed forms",
     "Formulas are re-implemented from the models' definitions; incomplete-beta CDF as oracle of the F quantile.")

prop("C06", "Querying, exporting or plotting a fit never changes it",
     "No sequence of queries, exports, comparisons, groupings with copying, or plots changes anything observable about a fit or its input coordinates: its axes, centre, errors, identifier, membership and disabled flag stay as they were. The same question asked again after any such history gets the same answer. Results handed out belong to the caller: overwriting them does not affect the fit.",
     ["histories", "inputs"], "all histories of up to 12 read-only operations over plain, re-loaded (any axis signs), grouped and reconstructed fits",
     "Tests call one operation on a fresh fit; in-place flips and shared buffers only show in a later call, for particular axis signs.",
     [PCA, "attitude/orientation/base.py", "attitude/orientation/grouped.py", "attitude/stereonet.py", "attitude/display/stereonet.py", "attitude/display/polar.py", "attitude/display/pca_aligned.py", "attitude/display/error_comparison.py", "attitude/display/nbextension.py"],
     [("as_conic, as_hyperbola, principal_axes, covariance_matrix", PCA), ("girdle_error, pole_error", "attitude/display/stereonet.py")],
     "stateful property-based testing (Hypothesis): random histories against a frozen-state model",
     "Histories are generated, state compared after every step; matplotlib (Agg) is the plotting back end.")

prop("C07", "Exported mappings are complete, faithful, plain JSON",
     "Exporting any fit, group or reconstructed plane gives a mapping that survives strict JSON encoding (no NaN or infinities) and whose identifier, strike, dip, rake, minimum and maximum angular errors, axes, hyperbolic axes and disabled flag are those of the fit; hyperbolic axes are exported in the same (squared) units for fits and reconstructed planes; for fits from points, centre plus centred coordinates give back the input points. Values supplied by the caller override or extend the mapping and nothing else changes. Groups list their members' identifiers, members name their group and non-members do not, and identifiers distinguish different fits.",
     ["inputs", "configurations"], "all fits, groups and reconstructed planes incl. level and vertical ones, all override keys",
     "One test exports one plane; consumers in JavaScript break on NaN, on missing keys or on numpy types that only some inputs produce.",
     ["attitude/orientation/base.py", PCA, "attitude/orientation/grouped.py", "attitude/orientation/reconstructed.py"],
     [("to_mapping, hash", "attitude/orientation/base.py"), ("to_mapping", PCA), ("hash_array", "attitude/orientation/base.py")],
     "property-based round-trip testing (Hypothesis) through strict JSON",
     "Compares the decoded JSON with the fit's own answers and the input points.")

prop("C08", "A fit can be stored as its principal axes and re-loaded",
     "Re-creating a fit from its points and its stored principal axes (in memory, as bytes or as JSON text, any number of times in a row) gives the same axes, singular values, orientation, errors, residuals and identifier as the original. Reversing the direction of any stored axis changes none of strike, dip and errors. The stored axes decide the orientation even if only some of the points are stored along with them.",
     ["inputs", "histories"], "all full-rank clouds, all sign patterns, up to three store/load generations",
     "One test re-loads one fit; drift, sign and centring mistakes show only for off-centre data or particular signs.",
     [PCA], [("PCAOrientation.__init__(axes=...)", PCA), ("principal_axes", PCA)],
     "round-trip property-based testing (Hypothesis)",
     "Full-rank clouds only: a zero singular value cannot be stored as a scaled axis.")

exec(open(os.path.join(HERE, "tools", "registry_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "registry_more.py")) else None


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["prop"], ensure_ascii=False) + "\n")
        for p, _ in NA:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    man = dict(version=1, setup_cmd="./setup.sh",
               checks=[p["check"] for p in P],
               not_applicable=[dict(property=p["id"], reason=r) for p, r in NA],
               notes="All checks run the code from /repo's working tree; see DESIGN.md. No hooks are needed in /repo.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
