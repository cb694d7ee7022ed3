GRP = "attitude/orientation/grouped.py"
REC = "attitude/orientation/reconstructed.py"
STN = "attitude/stereonet.py"
HYP = "attitude/display/hyperbola.py"
CON = "attitude/geom/conics.py"
JS = "frontend/packages/attitude/src/"

prop("C09", "Groups pool exactly their members, and membership stays consistent",
     "Fitting a group gives the plane, centre, point count and errors of its members' coordinates pooled after centring each member (parallel planes) or pooled as they are (same plane). After any history of grouping requests, with or without copying, and of disabling, every measurement is still present in its original order, each member names exactly the group that lists it, non-members name none, disabled flags affect exactly the requested measurements, and with copying the caller's own objects and earlier results are untouched. Requests that name unknown identifiers, re-use a grouped measurement or nest groups are refused with an error.",
     ["histories", "inputs"], "all histories of up to six grouping, disabling and refused requests over three to seven measurements",
     "Tests form one or two groups once; stale or leaked membership needs a second grouping step, copying and a look at the first result.",
     [GRP, PCA], [("GroupedOrientation, create_groups, disable_orientations", GRP)],
     "stateful model-based testing (Hypothesis) against a membership model and pooled-coordinate oracle",
     "Histories of bounded length; the pooled fit is checked through the scatter matrix, not through the library's own fit.",
     ["create_groups result list", "to_mapping of members and groups"])

prop("C10", "Ordinary regression of a plane is the exact least-squares solution",
     "For every set of points whose horizontal positions determine a plane, the regression returns the coefficients minimising the sum of squared vertical distances of the centred data, with the matching predictions, residuals, degrees of freedom, covariance and standard errors, whether the points come as rows or columns, arrays or lists, and however far they are from the origin. The attitude derived from it has the strike, dip and dip direction of that plane, and its errors are the standard errors of the gradient along and across the dip direction. Input data are never altered.",
     ["inputs"], "all integer clouds of 3 to 9 points (exact arithmetic) and float clouds up to 400 points, in four input layouts",
     "Tests compare one regression with a PCA of the same plane, loosely; exactness, layouts and offsets are not sampled.",
     ["attitude/orientation/linear/__init__.py", "attitude/orientation/linear/regression.py", "attitude/orientation/base.py", "attitude/coordinates/__init__.py"],
     [("Regression", "attitude/orientation/linear/regression.py"), ("LinearOrientation", "attitude/orientation/linear/__init__.py"), ("rotated_covariance, standard_errors", "attitude/orientation/base.py")],
     "property-based testing (Hypothesis) against exact rational arithmetic",
     "Oracle solves the normal equations in fractions; condition number of the horizontal positions bounded.")

prop("C11", "A plane reconstructed from angles is the plane those angles describe",
     "Reconstructing a plane from strike, dip, rake and two angular errors yields orthonormal, upward axes whose third is the normal of that strike and dip (right-hand rule), and an error surface whose full opening angles are the given errors along and across the rake direction, scaled by the chosen normal error. The reported strike, dip, rake and errors are exactly those given, identifiers distinguish planes with different errors, and a plane reconstructed from the reported numbers of a fit has the fit's normal and errors.",
     ["inputs"], "all strikes (also negative or beyond 360), dips, rakes and errors up to 175 degrees",
     "Tests reconstruct one plane and compare with one fit.",
     [REC, STN], [("ReconstructedPlane", REC)],
     "property-based testing (Hypothesis) against planes built directly from the angles",
     "The directions of the two errors of a plane reconstructed from a fit are a recorded finding and not asserted; everything else is.")

prop("C12", "Plane-error girdles lie on the error surface at the requested level",
     "Every position returned for the nominal plane, and for the upper and lower error sheets of a plane, satisfies the equation of that plane's error surface at the requested level, with the upper and lower sheets on opposite sides of the nominal plane, for any attitude, signs of the axes, error sizes, number of points and layout. The curve goes round once, evenly, with the requested number of points; the vectorised and the point-by-point implementation agree, also for exactly vertical planes. Bundled error coordinates contain exactly the nominal, upper and lower curves of each requested level, and the normal's error ellipse unless it is declined.",
     ["inputs", "configurations"], "all attitudes, axis signs, error sizes, levels, point counts, sheets and layouts",
     "Tests compare the two implementations with each other for one plane and the default level.",
     [STN, PCA], [("plane_errors, iterative_plane_errors, error_coords", STN)],
     "property-based testing (Hypothesis): decoded positions against the quadratic cone",
     "Positions are decoded to directions and put into the cone equation; tolerance relative to its terms.")

prop("C13", "Pole error ellipses are the duals of the plane errors",
     "Every position returned for the error ellipse of a plane's normal is the normal of a plane tangent to the error surface of the plane, at the same level, for any attitude, axis signs, error sizes, number of points and layout, in the vectorised and the point-by-point implementation and in bundled error coordinates alike. The ellipse goes round the upward normal once, and raising the level widens it in proportion everywhere.",
     ["inputs", "configurations"], "all attitudes, axis signs, error sizes, levels, point counts and layouts",
     "Tests compare two implementations at the default level; duality and dependence on level are not tested.",
     [STN], [("normal_errors, iterative_normal_errors", STN)],
     "property-based testing (Hypothesis): dual-cone equation and tangency",
     "As for the girdles; tangency evaluated with the cone's own matrix.")

prop("C14", "What is drawn on stereonets, polar plots and maps is the plane's uncertainty",
     "Drawing the girdle or pole uncertainty of a fit or reconstructed plane on a stereonet, a polar plot or as a map feature produces patches all of whose outline points, read back with the plot's own projection, lie on the plane's error surface or its dual, on the correct hemisphere, going round once. Style options given by the caller reach the drawn patch.",
     ["inputs", "configurations"], "all attitudes, axis signs, error sizes, planes from points or from angles, and drawn styles",
     "Tests only check that drawing does not raise.",
     ["attitude/display/stereonet.py", "attitude/display/polar.py", "attitude/display/cartopy.py", REC, STN],
     [("girdle_error, pole_error, uncertain_plane", "attitude/display/stereonet.py"), ("pole_error", "attitude/display/polar.py"), ("cartopy_girdle, cartopy_normal", REC)],
     "property-based testing (Hypothesis): drawn patches decoded and put into the cone equation",
     "matplotlib Agg back end; patches are read back from the axes.")

prop("C15", "Cross-sections through the error surface are the right hyperbolas",
     "In any vertical section through a plane, in the plane's own frame or in world coordinates, the returned nominal, lower and upper lines are the nominal trace and the two branches of the hyperbola cut from the error surface, at the requested positions, turned by the apparent dip of the section and shifted to the given centre. Polygons drawn or updated from them enclose exactly the region between the branches; the parametric hyperbola and ellipse helpers satisfy their defining equations. The figure of conjugate conics shows, to scale, the hyperbola with its asymptotes and foci and the ellipse of normals touching the perpendiculars of the asymptotes.",
     ["inputs", "configurations"], "all error axes, section directions, apparent dips from level to vertical, centres, unsorted or repeated positions",
     "Tests draw one hyperbola and compare two drawing paths for one data set.",
     [HYP, "attitude/display/parametric.py", "attitude/display/plot/cov_types/regressions.py"],
     [("hyperbolic_errors, HyperbolicErrors, apparent_dip_correction, hyperbola_values", HYP), ("hyperbola, ellipse, plot_conjugate_conics", "attitude/display/parametric.py")],
     "property-based testing (Hypothesis) against the closed-form hyperbola",
     "Slices through the normal only, as the library draws them.")

prop("C16", "Conics and quadrics keep their geometric meaning under every operation",
     "A conic or quadric built from semi-axes, rotated, scaled, translated or taken from a fit contains exactly the points it should: membership, centre, transformation, translation and undoing them agree with the underlying geometry, and operations leave the original unchanged. Pole and polar plane are inverse and reciprocal, the polar of a surface point is its tangent plane, and the dual is satisfied by exactly the tangent planes and is its own inverse. Ellipsoids, one-sheet hyperboloids and paraboloids are classified as such, and planes report the normal, Hessian form and nearest point they describe.",
     ["inputs"], "all ellipses, ellipsoids and hyperboloids of drawn semi-axes, rotations and centres, invertible affine maps and points",
     "Tests check one or two fixed ellipsoids.",
     [CON, PCA], [("Conic, Plane, conic, plane", CON), ("as_conic, as_hyperbola", PCA)],
     "property-based and metamorphic testing (Hypothesis) against independently built quadratic forms",
     "Conditioning-scaled tolerances; points within round-off of the surface are not used for inside/outside.")

prop("C17", "Slices, outlines and principal axes of quadrics are geometrically exact",
     "Slicing a quadric by any plane gives a conic whose points, lifted back with the returned transformation, lie in that plane and satisfy the quadric with the same value, in caller-supplied or orthonormal default axes. The outline seen from a viewpoint consists of surface points where the line of sight grazes the body. Major axes are perpendicular vectors from the centre to the surface with the body's semi-axis lengths, and for a body seen along one of its axes the subtended half-angles equal their closed form, from the origin or any viewpoint.",
     ["inputs"], "all ellipses and ellipsoids, cutting planes, own or default axes, and outside viewpoints",
     "Tests slice a few fixed ellipsoids through the origin.",
     [CON], [("slice, projection, major_axes, angle_subtended", CON)],
     "property-based testing (Hypothesis): points lifted back to space",
     "Subtended angles claimed only for viewpoints on a principal axis.")

prop("C18", "Coordinate conversions invert each other and vector helpers mean what they say",
     "Cartesian, spherical and stereonet coordinates convert into each other without loss and follow the stated angle conventions everywhere, including at the poles; centring moves points to zero mean and changes nothing else. Angles between vectors are finite and correct for parallel, opposite and nearly parallel vectors of any length; perpendicular vectors are perpendicular, and the rotation between two vectors is the shortest proper rotation that carries one direction onto the other. Plane rotations add, homogeneous augmentation and projections keep the coordinates, and the covariance ellipse lies at the requested number of standard deviations.",
     ["inputs"], "all non-zero vectors with components zero or within twelve decades, all directions including poles, all 2-d covariances",
     "Tests convert one batch of random points; degenerate pairs and poles are not sampled.",
     ["attitude/coordinates/__init__.py", "attitude/coordinates/rotations.py", "attitude/geom/util.py", "attitude/geom/transform.py", "attitude/error/ellipse.py", STN],
     [("spherical, cartesian, centered", "attitude/coordinates/__init__.py"), ("transform, to_stereonet, from_stereonet", "attitude/coordinates/rotations.py"), ("angle, perpendicular_vector, unit_vector, augment_tensor", "attitude/geom/util.py")],
     "round-trip and oracle property-based testing (Hypothesis)",
     "Elementary formulas as oracles; mplstereonet limits stereonet directions to about 1e-8.")

prop("C19", "Coordinates extracted from elevation models are the model's own",
     "Extracting a polygon (with holes, several parts) from any georeferenced raster returns every pixel whose centre lies inside and no other, once, at its pixel centre, with its own elevation from the requested band and without nodata. Extracting a point, line or multi-line returns its vertices in order, plus subdivisions on the line no further apart than asked, with elevations interpolated bilinearly between pixel centres right up to the edges, never mixing in nodata. The geometry and raster passed in are not changed.",
     ["inputs", "configurations"], "all drawn rasters (rotated, south-up, several bands and number types, nodata holes), points, lines, multi-lines, polygons with holes",
     "The repository's tests do not exercise extraction at all.",
     ["attitude/helpers/dem.py", "attitude/helpers/interpolation.py"],
     [("extract_area, extract_line, extract_shape, offset_mask, clean_coordinates", "attitude/helpers/dem.py"), ("nearest, bilinear, cubic", "attitude/helpers/interpolation.py")],
     "property-based testing (Hypothesis) against a per-pixel and bilinear reference",
     "Rasters are in-memory GeoTIFFs of up to 14 x 14 pixels; pixel centres on the outline are not judged.")

prop("C20", "Interactive notebook plots receive exactly the data they were given",
     "However many plots a notebook page shows, and whatever text names, colors or identifiers contain (quotes, markup, script endings, line separators), each plot runs without error, is drawn once, in its own element, from data equal to the exported mappings of the fits, groups, reconstructed planes or ready-made mappings passed in, in order, whether one object or a sequence was given. No data is ever executed as code. Initialising the notebook loads the bundled library exactly once per session, however often it is asked for; an attempt the front end could not take does not count.",
     ["inputs", "histories"], "all histories of one to four plots with hostile strings and arbitrary JSON values; all sequences of initialisation and plot calls",
     "There are no tests of notebook output; quoting mistakes need particular characters.",
     ["attitude/display/nbextension.py"], [("plot_interactive, init_notebook_mode", "attitude/display/nbextension.py")],
     "property-based testing (Hypothesis) and history generation; output parsed as HTML and its scripts executed in node",
     "The page and the plotting function are stand-ins that record calls.")

prop("C21", "The web frontend's uncertainty curves are the plane's error surfaces",
     "For any plane, error axes and options (layout, hemisphere, sheet, level, units, point count), every point the frontend computes for the nominal plane, the upper and lower error sheets and the normal's error ellipse, read back as a direction, lies on the corresponding error surface at that level and on the documented side, going round once with the requested number of points. Fed with the exported mapping of a Python fit, the frontend shows the angular errors that Python reports. Splitting scaled axes into unit axes and lengths and recombining them are inverse, and direction-to-position conversion follows its formula. Error axes and axes rebuilt from strike, dip, rake and two angular errors are those of that plane with these (full) opening angles, and a plane reconstructed in Python and exported shows the same errors there.",
     ["inputs", "configurations"], "all error axes over eight decades, all attitudes incl. overturned, all option combinations",
     "The JavaScript tests compare a few stored curves and cannot run in the Python suite at all.",
     [JS + "math.ts", JS + "reconstruct.ts"], [("planeErrors, normalErrors, combinedErrors, cart2sph, convolveAxes, deconvolveAxes", JS + "math.ts"), ("reconstructErrors", JS + "reconstruct.ts")],
     "property-based testing (Hypothesis) of the bundled TypeScript in node against the quadratic cones; differential with the Python side",
     "Bundled with esbuild from the working tree; vendored d3 and mathjs.")

prop("C22", "The web frontend's map features and cross-sections show the right plane",
     "The error surface drawn for a plane contains its nominal plane and every direction within its error and excludes directions beyond it and its normal; the error ellipses (one per requested level, both hemispheres) contain the normals and exclude directions beyond the error; areas match the uncertainty, overturned planes included. Plane data take the mean given, stored or computed from the points in that order, with true dip, dip direction and apparent dip towards any azimuth. In a cross-section each plane is placed at its own position and turned to its true trace on screen (its group's, if grouped), its error band has the width the error surface has in that section, apparent-dip traces run along the plane's true trace, digitized points are projected onto the section, and centroids of several planes are weighted by their measurements or centre their extent.",
     ["inputs", "configurations"], "all attitudes incl. overturned, half-angles 0.5 to 60 degrees, levels, layouts, viewpoints, screen scales and point sets",
     "The JavaScript tests cover none of this and do not run in the Python suite.",
     [JS + "functions.ts", JS + "hyperbola.ts", JS + "util.ts"], [("errorSurface, errorEllipse, nominalPlane, plane", JS + "functions.ts"), ("PlaneData, createTransform, digitizedLine, apparentDip, hyperbolicErrors, fixAngle", JS + "hyperbola.ts"), ("computeCentroidAverage, computeCentroidExtrema, cloneOptions", JS + "util.ts")],
     "property-based testing (Hypothesis) of the bundled TypeScript in node: containment and area on the sphere, trace geometry",
     "d3's spherical containment and area are trusted; drawing goes to a recording stand-in document.")

prop("C23", "Summary figures of a fit show its data and its uncertainty",
     "The axis-aligned figure of a fit shows, in its three panels, the data along the fitted long, short and upward normal axes (all points, or a thinned subset of them beyond 10,000), error bands that are the sampling-based hyperbolas of the section across the full extent of the data, and the true extents and angular errors in its captions; all panels are to scale, the axes are traced over the extent of the data, and with a color map points are colored by their residual. The comparison figure shows the data across the short section, the requested limits, and sampling- and noise-based bands equal to those models, plus a finite bootstrap band when requested.",
     ["inputs", "configurations"], "all full-rank clouds, up to 30,000 points, with and without color map, thinning, sizes and bootstrap",
     "Tests only check that a figure is produced.",
     ["attitude/display/pca_aligned.py", "attitude/display/error_comparison.py", HYP, AX],
     [("plot_aligned", "attitude/display/pca_aligned.py"), ("error_comparison", "attitude/display/error_comparison.py")],
     "property-based testing (Hypothesis): the figure is taken apart and compared with closed forms",
     "matplotlib Agg; figures are read back through artists, not pixels.")

NB = "frontend/packages/notebook-ui/src/"
prop("C24", "The notebook UI shows what its user pointed at, selected and turned to",
     "After any sequence of pointing at and clicking list entries, pointing at drawn errors, leaving, selecting, clearing, zooming to the selection, switching groups, planes and poles, re-centring and dragging, with one or several UIs on a page: the list shows exactly the listed measurements with the selected and hovered ones marked (a member is hovered together with its group and the group's other members); the panel describes the hovered measurement; buttons and the text to copy follow the selection; the stereonet draws exactly the shown planes and poles with their own color, an opacity that falls with their error, and errors of the right size and place; everything drawn is projected for the current rotation, labels included, and dragging turns only the dragged stereonet. The side view places every plane and trace at its own position, turned to its true trace for the current azimuth, group errors at the members, and farther planes beneath nearer ones. The data passed in are not changed.",
     ["histories", "inputs", "configurations"], "all histories of up to 18 steps on one or two UIs over one to seven planes and groups, shown or not; side views of drawn planes under changing azimuth and hovering",
     "There is no test of the UI; stale views need a particular order of actions.",
     [NB + "index.ts", NB + "components/list.ts", NB + "components/data-panel.ts", NB + "components/stereonet.ts", NB + "components/side-view.ts", JS + "stereonet/index.ts", JS + "stereonet/interaction.ts", JS + "stereonet/labels.ts"],
     [("AttitudeUI, createUI", NB + "index.ts"), ("StereonetComponent", NB + "components/stereonet.ts"), ("SideViewComponent", NB + "components/side-view.ts"), ("Stereonet, opacityByCertainty", JS + "stereonet/index.ts"), ("drag interaction", JS + "stereonet/interaction.ts"), ("globalLabels", JS + "stereonet/labels.ts")],
     "stateful model-based testing (Hypothesis) of the bundled TypeScript in node against a model of the user's actions",
     "React, blueprint and the document are small stand-ins with synchronous updates; looks (fonts, style sheets) are not judged.")

WA = "frontend/packages/webapp/src/"
prop("C25", "The web application plots exactly the complete rows of its sheet",
     "After any sequence of typing or pasting into the sheet, adding rows, resetting, changing the clip angle and switching planes and poles, from the default or a stored sheet: the sheet shows and stores what was entered, a row's maximum and minimum error exchanged if entered the wrong way round, with every cell marked as empty, valid or invalid; rows are added in blank tens; the plots show exactly the rows whose five numbers are valid, in order, once, with their own numbers and color (gray if the color is missing or invalid), poles at the place and errors of the size the numbers say, translucent by their error. The clipped plot shows the poles within its clip angle and stays inside its frame. Earlier sheets are never changed in place.",
     ["histories", "inputs"], "all histories of up to 10 steps over sheets of up to 40 rows with numbers, text, blanks and colors",
     "There is no test of the application.",
     [WA + "app.ts", WA + "sheet.ts", "frontend/packages/plots/src/vertical.ts", JS + "reconstruct.ts"],
     [("App", WA + "app.ts"), ("DataArea, OrientationDataSheet", WA + "sheet.ts"), ("VerticalClippedStereonet, translucentEllipseStyle", "frontend/packages/plots/src/vertical.ts")],
     "stateful model-based testing (Hypothesis) of the bundled TypeScript in node against a model of the sheet",
     "React, the grid component, stored state and color parsing are small stand-ins.")

prop("C26", "A stereonet shows its data for the view it was set to, in every history",
     "Whatever order size, margin, clip angle (up to 90 degrees), centre and graticule are set in, before or after a stereonet is put on the page, and whatever is added, turned, dragged or redrawn afterwards, with several stereonets on a page: it reports the values last set, everything it shows is projected (equal area) for its current rotation, size and clip angle, its outline is centred in its frame with the radius that size and margin leave when clipped below 90 degrees, meridians and parallels lie at the multiples of the graticule's steps, planes and poles are drawn once per measurement with errors of the right place and size (at the requested level) and the requested color (fixed or computed from each plane), nothing is clipped once clipping is switched off, the horizon is the horizontal circle with its labels at the edges of the frame, direction labels sit at their directions and are hidden on the far side, and the N, E, S, W and dip labels of a vertical view sit where those azimuths and dips are. The ready-made clipped and rectangular plots, rendered again with other data or clip angle, show only the current data, grouped members dashed and unfilled, translucent by their error, with graticule labels that give the dip or azimuth at their place. Opacity falls from its maximum without error to its minimum at the end of the chosen range of errors.",
     ["histories", "inputs", "configurations"], "all histories of up to 18 steps on one or two stereonets; one to four renders of each ready-made plot; all errors, ranges and colors",
     "There is no test of drawing in the frontend; stale or misplaced drawings need a particular order of settings.",
     [JS + "stereonet/index.ts", JS + "stereonet/vertical.ts", JS + "stereonet/horizontal.ts", JS + "stereonet/labels.ts", JS + "stereonet/interaction.ts", "frontend/packages/plots/src/vertical.ts", "frontend/packages/plots/src/rectangular.ts", "frontend/packages/plots/src/graticule-labels.ts"],
     [("Stereonet, opacityByCertainty", JS + "stereonet/index.ts"), ("vertical", JS + "stereonet/vertical.ts"), ("globalLabels", JS + "stereonet/labels.ts"), ("VerticalClippedStereonet", "frontend/packages/plots/src/vertical.ts"), ("RectangularStereonet", "frontend/packages/plots/src/rectangular.ts"), ("AzimuthLabels, DipLabels", "frontend/packages/plots/src/graticule-labels.ts")],
     "stateful model-based testing (Hypothesis) of the bundled TypeScript in node against a model of the view",
     "d3's projection and path generation are trusted; the document and path intersection are small stand-ins.")
