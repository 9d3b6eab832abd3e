"""The properties: statements, anchors and notes."""

P = "PathLib/"


def prop(id, title, statement, text, why, files, mech, over=("inputs",), state=None, note=""):
    a = {"files": [P + f for f in files], "mechanism": [
        m if isinstance(m, dict) else {"name": m, "role": r, "where": w} if False else
        {"name": m[0], "where": P + m[1], "role": m[2]} for m in mech]}
    if state:
        a["state"] = [{"name": s[0], "meaning": s[1], "where": P + s[2]} for s in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
            "why_tests_cant": why, "anchors": a, "note": note}


PROPS = [
    prop("C01", "Bounds rectangles are the smallest rectangles enclosing their points",
         "The bounds rectangle of any collection of points - given directly, as a contour's segments, or as several "
         "contours - contains every one of those points, and each of its four edges passes through one of them. "
         "A rectangle of no points contains nothing and leaves the other operand of a union unchanged.",
         "all coordinates (any magnitude and sign), numbers and groupings of points, including empty groups",
         "No test constructs a bounds rectangle; wrong sentinels or min/max slips only show for particular magnitudes, "
         "orders or empty groups.",
         ["PathUtilities.py"],
         [("BoundsRectangle.__init__", "PathUtilities.py", "running min/max over the points"),
          ("fromContour/fromCoutours", "PathUtilities.py", "fold of unions"),
          ("union", "PathUtilities.py", "min/max of the edges")]),
    prop("C02", "Rectangle algebra agrees with the rectangles as point sets",
         "Union is the least rectangle containing both operands; intersection is exactly the common points (None only "
         "if there are none, touching edges count); containment tests, crossing tests and the reported relation of two "
         "rectangles (encloses, enclosed, intersects, separate) agree with set inclusion and overlap. Derived data "
         "(width, height, area, center, diagonal, contour, positions by percentage) is consistent with the current edges, "
         "results are values independent of their operands, and no operation changes its operands.",
         "all pairs and triples of rectangles, including degenerate, touching and nested ones, and all points",
         "Existing tests do not touch rectangle operations; degenerate and touching configurations are measure-zero for sampling.",
         ["PathUtilities.py"],
         [("BoundsRectangle.union/intersection/encloses/enclosesPoint/relationTo", "PathUtilities.py",
           "comparisons of edges"),
          ("BoundsRectangle accessors", "PathUtilities.py", "derived values")]),
    prop("C03", "Transforms act pointwise by their matrix and compose in order",
         "Applying a transform maps each point to the row vector (x y 1) times the matrix, divided by the homogeneous "
         "coordinate; segments, contours and lists of contours are mapped point by point with their structure kept. "
         "A transform built from several matrices equals applying them one after the other in the given order, and "
         "neither the input shapes, the matrices given, nor other transforms are modified.",
         "all 3x3 matrices, all points off the vanishing line, all nested shapes, all sequences of matrices",
         "One test checks one rotation about one point; it cannot see a transposed product, a dropped term, aliasing "
         "or a wrong structure for other shapes.",
         ["Transform.py"],
         [("multiplyRowByMatrix/multiplyMatrixByMatrix/concatenateMatrices", "Transform.py", "matrix products"),
          ("applyToPoint/applyToSegment/applyToContour/applyToContours", "Transform.py", "application")]),
    prop("C04", "Elementary transforms do what their parameters say",
         "Translation, scaling, shearing, mirroring (also around a center) and perspective (also from a center) "
         "transforms map every point according to their definition, with identity defaults for omitted parameters. "
         "Centers stay fixed, mirroring twice restores every point and translating back restores every point.",
         "all parameter values, centers and points; both axis flags",
         "Tests check one translation matrix; parameters, defaults and axis choices are unexercised.",
         ["Transform.py"],
         [("_matrix and the elementary matrix builders", "Transform.py", "parameter placement"),
          ("mirrorAround/perspectiveFrom", "Transform.py", "conjugation by a translation")]),
    prop("C05", "Rotations are rigid and turn by the stated angle and sense",
         "A rotation by d degrees about a point turns every point by d degrees counter-clockwise (clockwise on "
         "request), keeps the center, distances and orientation, and is undone by the opposite sense or angle; "
         "rotations about one center add their angles. Rotating points, segments, contours and lists of contours, and "
         "the combined move-and-rotate transforms, agree with this; the default is 90 degrees counter-clockwise.",
         "all angles, centers, points and shapes",
         "The only rotation tested is 90 degrees about (4, 3), where most sign and order errors cancel.",
         ["Transform.py", "PathUtilities.py"],
         [("Transform.sin/cos/_rotationMatrix/rotationAbout/moveAndRotate/rotateAndMove", "Transform.py",
           "matrix of the rotation, conjugated by translations"),
          ("rotatePointAbout and friends", "PathUtilities.py", "wrappers")]),
    prop("C06", "Line intersections are sound and complete",
         "For two lines the reported intersection lies on both and is found whenever they are not parallel; for two "
         "segments an intersection point is reported exactly when they cross or touch at one point, and it lies on both.",
         "all pairs of lines given by two points each, including parallel, coincident, touching and degenerate ones",
         "Five sampled pairs are tested; the property is about every configuration including boundary contact.",
         ["BezierUtilities.py", "PathUtilities.py"],
         [("lli8/lli4/lli", "BezierUtilities.py", "determinant formula"),
          ("intersectionPoint", "PathUtilities.py", "bounds filter")]),
    prop("C07", "Segment predicates and measures agree with analytic geometry",
         "A point is reported on a line segment exactly when it lies between its ends on the line through them; "
         "vertical, horizontal and diagonal tests, slope, length, slope angles, deltas and midpoint agree with the end "
         "points of the segment, for tuple and complex points alike.",
         "all segments and points, including vertical, horizontal and degenerate ones",
         "Tests sample two points on one line and three slopes.",
         ["PathUtilities.py"],
         [("pointOnLine", "PathUtilities.py", "bounds and slope comparison"),
          ("getDeltas/endPoints/pointXY/slope/length/midpoint/slopeAngle/rawSlopeAngle", "PathUtilities.py",
           "end point arithmetic")]),
    prop("C08", "Matrix inversion returns the inverse exactly when there is one",
         "For a square matrix the result is a two-sided inverse if the matrix is non-singular and None if it is "
         "singular or not square, whatever row exchanges are needed; the argument is left unchanged.",
         "all matrices up to 3x3 (and structured 4x4 ones), including those with zero pivots",
         "One 3x3 matrix without zero pivots is tested; the pivoting path is never taken.",
         ["MatrixInversion.py"],
         [("matrixInvert", "MatrixInversion.py", "Gauss-Jordan elimination with row exchange")]),
    prop("C09", "Matrix helpers and binomial tables are correct in any call history",
         "Matrix product and transposition follow their definitions for all compatible shapes; binomial coefficients "
         "are correct for every order no matter which were requested before, and the basis matrix converts Bernstein "
         "to power coefficients. Arguments are not modified.",
         "all matrix entries and shapes up to 4x4, all call histories over orders up to 9",
         "The table extends itself lazily, so correctness depends on call history; tests never request a coefficient.",
         ["CurveFitting.py"],
         [("multiply/transpose/row/col", "CurveFitting.py", "matrix product"),
          ("binomial", "CurveFitting.py", "lazily extended Pascal triangle"),
          ("basisMatrix", "CurveFitting.py", "signed binomials")],
         over=("inputs", "histories"), state=[("binomialCoefficients", "lazily extended rows", "CurveFitting.py")]),
    prop("C10", "Curve fitting interpolates the given points",
         "Fitting n points yields the control points of the degree n-1 curve that passes through every given point at "
         "its assigned parameter; the parameters start at 0, end at 1 and grow with accumulated chord length (or "
         "uniformly on request).",
         "all sequences of 2 to 4 points with distinct neighbours; both parametrisations",
         "Fitting is not tested at all.",
         ["CurveFitting.py", "MatrixInversion.py"],
         [("computeTimeValues", "CurveFitting.py", "normalised chord length"),
          ("bestFit/fit/formTMatrix", "CurveFitting.py", "normal equations"),
          ("matrixInvert", "MatrixInversion.py", "inversion")]),
    prop("C11", "Curve evaluation is the Bernstein polynomial of the control points",
         "Evaluating a curve of any order at a parameter gives the Bernstein combination of its control points, the "
         "end points at 0 and 1; the de Casteljau hull lists the successive interpolation points ending in the same "
         "point; the look-up table samples the curve uniformly including both ends.",
         "all control points, all parameters, orders 1 to 5",
         "No test evaluates a curve.",
         ["Bezier.py", "BezierUtilities.py"],
         [("Bezier._compute/get/midpoint", "Bezier.py", "Bernstein form, de Casteljau above order 3"),
          ("Bezier.hull", "Bezier.py", "repeated interpolation"), ("lerp", "BezierUtilities.py", "interpolation"),
          ("getLUT", "Bezier.py", "uniform samples")],
         state=[("_lut", "cached samples", "Bezier.py")]),
    prop("C12", "Splitting reparametrises the curve exactly",
         "Splitting at t gives two curves that trace the original on [0,t] and [t,1]; splitting between t1 and t2 "
         "gives a curve tracing [t1,t2]. Each piece knows the parameter interval of the original it came from, also "
         "when pieces are split again, and the original is unchanged.",
         "all curves of order 1 to 3, all split parameters, nested splits",
         "No test splits a curve; an error in one control point or interval shows only off particular parameters.",
         ["Bezier.py", "BezierUtilities.py"],
         [("Bezier.split", "Bezier.py", "selection of hull points, interval bookkeeping"),
          ("map", "BezierUtilities.py", "interval mapping")],
         state=[("_t1,_t2", "interval of the original curve", "Bezier.py")]),
    prop("C13", "Derivatives, tangents and normals are those of the curve",
         "The derivative control points and the derivative at a parameter are those of the Bernstein polynomial; where "
         "the derivative does not vanish, tangent and normal are unit vectors along it and 90 degrees counter-clockwise "
         "of it. At an end with the handle on it, where the derivative vanishes, the normal is that of the direction "
         "towards (from) the nearest other control point.",
         "all curves of order 1 to 3, all parameters with non-vanishing derivative, ends with one or two handles on them",
         "No test differentiates a curve.",
         ["Bezier.py"],
         [("dcPoints", "Bezier.py", "scaled differences"), ("_derivative/_tangent/normal/_normal", "Bezier.py",
                                                           "evaluation and normalisation")],
         state=[("_dcPoints", "cached derivative points", "Bezier.py")]),
    prop("C14", "A curve's bounding box contains the curve and is tight",
         "The bounding box (and bounds rectangle) of a curve contains the curve at every parameter in [0,1], and each "
         "of its edges touches the curve. Overlap of two curves is reported exactly when their boxes meet.",
         "all curves of order 1 to 3 and all parameters in [0,1]",
         "Containment must hold for a continuum of parameters of every curve.",
         ["Bezier.py", "BezierUtilities.py", "PathUtilities.py"],
         [("bbox/_getminmax/boundsRectangle", "Bezier.py", "extremes over ends and critical parameters"),
          ("droots", "BezierUtilities.py", "roots of the derivative"), ("overlaps", "Bezier.py", "box test")],
         state=[("_bbox,_boundsRectangle,_extrema", "caches", "Bezier.py")]),
    prop("C15", "Extrema of a curve are complete and sound",
         "The reported extrema of each coordinate are parameters in [0,1] at which that coordinate's first derivative "
         "(or, for cubics, second derivative) vanishes, and no such isolated parameter is missing. The combined list is "
         "sorted, without repetitions, and contains exactly the parameters of both coordinates.",
         "all curves of order 1 to 3",
         "Completeness quantifies over all curves and parameters; nothing is tested.",
         ["Bezier.py", "BezierUtilities.py"],
         [("extrema", "Bezier.py", "roots of derivative polynomials, filtered"),
          ("droots", "BezierUtilities.py", "quadratic and linear roots"),
          ("removeDuplicates", "BezierUtilities.py", "order-preserving")],
         state=[("_extrema", "cache", "Bezier.py")]),
    prop("C16", "Intersections of a curve with a line are complete and sound",
         "Each parameter reported as a root lies in [0,1] (within tolerance) and the curve there is on the given line "
         "or axis; every transversal crossing is reported. Restricting to a segment keeps exactly the crossings on it, "
         "and intersecting with a line curve gives a point of the curve (of a line: of the infinite line through it) on "
         "that line.",
         "all lines and quadratic curves and all cubics (away from a stated neighbourhood of double roots), all lines",
         "No test computes a root; the cubic solver has five branches selected by signs of derived quantities.",
         ["Bezier.py", "BezierUtilities.py"],
         [("roots", "Bezier.py", "quadratic formula and Cardano's method"),
          ("lineIntersects/intersectWithLine", "Bezier.py", "filtering"), ("_align", "Bezier.py", "alignment")]),
    prop("C17", "Alignment is a rigid motion onto the axis; the tight box encloses the curve",
         "Aligning a curve with a line moves it rigidly so that the line starts at the origin and runs along the "
         "positive x axis. The tight bounding box is a closed rectangle in the chord's direction whose corners enclose "
         "the curve.",
         "all curves and lines with distinct end points",
         "No test aligns a curve.",
         ["Bezier.py", "Transform.py", "PathUtilities.py"],
         [("_align/align/tightbbox", "Bezier.py", "move-and-rotate and its inverse"),
          ("moveAndRotate/rotateAndMove", "Transform.py", "transforms"), ("rawSlopeAngle", "PathUtilities.py", "angle")]),
    prop("C18", "Queries do not change a curve: answers do not depend on history",
         "Asking a curve for anything (points, box, extrema, length, derivative, reduction, roots, pieces, samples) "
         "never changes its control points or the answer to any later question, whatever the order of the questions; "
         "two curves never influence each other.",
         "all pairs of queries on all curves of order 1 to 3",
         "Lazily cached fields are shared by reference between queries; tests perform no sequences of queries.",
         ["Bezier.py"],
         [("lazy properties", "Bezier.py", "caching"), ("_getminmax/reduce", "Bezier.py", "consumers of cached lists")],
         over=("histories", "inputs"),
         state=[("_extrema,_bbox,_lut,_dcPoints,_length,_boundsRectangle", "caches", "Bezier.py")]),
    prop("C19", "Raising the order of a curve does not change it",
         "The order-raised curve has one more control point and the same point at every parameter.",
         "all curves of order 1 to 4 and all parameters",
         "No test raises an order.",
         ["Bezier.py"], [("raiseOrder", "Bezier.py", "degree elevation")]),
    prop("C20", "Offsetting moves points along the normal; scaling keeps end tangents",
         "The offset point at t lies at the signed distance along the unit normal; offsetting a line moves it "
         "parallel by the distance. Scaling a simple curve whose end normals are not parallel by a constant moves its end "
         "points by that distance along their normals and keeps the tangent directions there (of a quadratic, at its "
         "start); with a distance function the ends move by its values at 0 and 1 and the handles by "
         "its values at 1/3 and 2/3, along the lines through the point where the end normals meet. Parallel normals are refused with an "
         "error. Offsetting a curve offsets its reduced pieces one by one.",
         "all curves of order 1 to 3 with non-vanishing end derivatives, all distances (including zero and negative)",
         "No test offsets a curve.",
         ["Bezier.py", "BezierUtilities.py"],
         [("offset", "Bezier.py", "point offset, linear and reduced curves"), ("scale", "Bezier.py", "origin construction"),
          ("lli4", "BezierUtilities.py", "intersection of normals")]),
    prop("C21", "Curve-curve intersection: nothing lost, everything reported is close",
         "In the recursive intersection search, any common point of two curves survives each subdivision step (some "
         "pair of halves contains it and is kept), and each reported parameter pair comes from pieces whose boxes are "
         "smaller than the threshold and overlap, so both curves are within twice the threshold of each other there.",
         "all pairs of curves of order 2 and 3 and all thresholds, one subdivision step at a time",
         "No test intersects curves; the statement covers all pairs and depths.",
         ["Bezier.py"],
         [("pairiteration/curveIntersects/intersects/selfIntersects", "Bezier.py", "bisection with box pruning"),
          ("overlaps/split", "Bezier.py", "pruning and halving")]),
    prop("C22", "The closest point reported is on the path and at least as close as the samples",
         "The closest-point search returns a point of the path together with its exact distance from the query point, "
         "and that distance is no larger than the distance to any point of the uniform sampling it starts from. "
         "On a straight path, also across joints and sampled at up to a hundred points a curve, the point is within a quarter of the sample spacing of the true closest point.",
         "all query points (in windows around and far from the path) and paths of one to three curves of order 1 to 3, several sample counts",
         "No test asks for a closest point.",
         ["Bezier.py"],
         [("findClosestPoint/_findClosest/_refineBinary", "Bezier.py", "coarse search and refinement")],
         state=[("_lut", "cached samples", "Bezier.py")]),
    prop("C23", "Paths and outlines report the aggregate of their current curves",
         "A path's bounds, start, end and samples are those of its current curves in order, also after curves have "
         "been replaced or removed; an outline's bounds enclose exactly its paths.",
         "all paths of up to three curves, all edits, outlines of up to two paths",
         "No test builds a path object; staleness needs a history of edits and queries.",
         ["Bezier.py"],
         [("BContour.__init__/__setitem__/__delitem__/getLUT", "Bezier.py", "aggregation and caches"),
          ("BOutline.__init__/pathFromSegments", "Bezier.py", "aggregation")],
         over=("inputs", "histories"), state=[("_lut,_bounds,_start,_end", "cached aggregates", "Bezier.py")]),
    prop("C24", "The SVG path string of a path round-trips to the same curves",
         "Parsing the path data produced for a path by the SVG rules gives the start point and exactly the path's "
         "curves in order (zero-length lines may be dropped), whatever mix of lines and curves it has.",
         "all connected paths of up to four curves of order 1 to 3 in any mix and all coordinates, including axis-parallel and repeated lines",
         "The abbreviation of commands depends on coordinate coincidences and on the preceding command.",
         ["Bezier.py"], [("BContour.d/pointToString", "Bezier.py", "command selection and abbreviation")]),
    prop("C25", "The segment pen produces closed connected contours of what was drawn",
         "For every sequence of pen calls the contours recorded are connected (each segment starts where the previous "
         "one ended), closed (with a line added if needed), start at the move point and consist of the drawn lines and "
         "curves in order; a quadratic run is expanded at the implied on-curve midpoints, and no contour leaks into another.",
         "all pen call sequences of up to four drawing calls and two contours, with all coordinates",
         "No test draws with the pen; coincident points and runs of off-curve points matter.",
         ["SegmentPen.py"],
         [("moveTo/lineTo/curveTo/qCurveTo/closePath", "SegmentPen.py", "segment accumulation")],
         over=("inputs", "histories"),
         state=[("_contours,_contour,_lastOnCurve", "contours under construction", "SegmentPen.py")]),
    prop("C26", "Components are the component glyph's contours under its transformation",
         "Adding a component appends the contours of the referenced glyph, each point mapped by the component's "
         "affine transformation, after whatever the pen already holds; nested components compose, and the component "
         "glyph's own contours are not affected.",
         "all six-component transformations (identity included), nested to depth two, all coordinates",
         "No test adds a component.",
         ["SegmentPen.py", "Transform.py"],
         [("addComponent", "SegmentPen.py", "matrix from the transformation"), ("applyToContours", "Transform.py", "mapping")]),
    prop("C27", "The plotter's SVG paths draw exactly the given curves",
         "Parsing the path data a plotter emits for contours, path objects, curves and point lists by the SVG rules "
         "gives the given segments in order, drawn contours closed when requested, with or without command abbreviation and for any "
         "number of contours in one drawing.",
         "up to two contours of up to three segments of order 1 to 3 in any mix, all coordinates, both modes",
         "No test draws; abbreviation depends on state carried between contours.",
         ["ContourPlotter.py"],
         [("drawContours/drawPaths/drawPointsAsSegments/getCommand", "ContourPlotter.py", "command selection")],
         state=[("_lastCommand,_pen", "abbreviation state", "ContourPlotter.py")]),
    prop("C28", "Temporary drawing attributes are restored",
         "After any drawing call that is given a color or fill request, and after matched push and pop calls, the "
         "plotter's fill and stroke attributes are what they were before; during the call the requested ones apply.",
         "all call sequences of up to three drawing or push/pop calls and all options",
         "No test draws; leaks only show in the next drawing.",
         ["ContourPlotter.py"],
         [("push/pop attribute stacks", "ContourPlotter.py", "save and restore")],
         over=("histories", "configurations"),
         state=[("_fillAttributeStack,_strokeAttributeStack", "saved attributes", "ContourPlotter.py")]),
    prop("C29", "Colors are found by name and generated within range",
         "Color keywords are recognised in any letter case and yield the CSS3 color; other words are errors and "
         "non-words yield nothing. Generated colors have components between 0 and 255, and the hue sequence advances "
         "by 73 degrees modulo 360 from the set hue with half saturation and lightness.",
         "all keywords in all cases, all random outcomes, all hues",
         "Color is not tested.",
         ["Color.py"],
         [("_forKeyword/fromName", "Color.py", "table lookup"), ("randomHSLColor/randomRGBColor/setCurrentHue", "Color.py",
                                                                "generation")],
         over=("inputs", "histories"), state=[("_current_hue", "running hue", "Color.py")]),
    prop("C30", "Arc length is the Gauss-Legendre quadrature of the speed",
         "A curve's length is half the 24-point Gauss-Legendre sum of its speed over [0,1], which is exact for lines "
         "and constant-speed curves and integrates polynomials of degree up to 47; computing it leaves the decimal "
         "precision as it was, and repeated questions give the same answer.",
         "all lines and curves of order 1 to 3; all polynomial speeds (through the nodes and weights)",
         "No test computes a curve length.",
         ["Bezier.py", "BezierUtilities.py"],
         [("length/_arcfun", "Bezier.py", "weighted sum of speeds"), ("tValues/cValues", "BezierUtilities.py", "nodes, weights")],
         state=[("_length", "cache", "Bezier.py"), ("decimal context precision", "global", "Bezier.py")]),
    prop("C31", "Direction, linearity and orientation of a curve are classified correctly",
         "A curve is reported going up (down) exactly when its control points' heights never decrease (never "
         "increase) in order, flat only for horizontal lines and mixed otherwise; it is linear exactly when its control points are (within 0.0001) on "
         "the chord line, and clockwise exactly when its first handle turns to the positive side.",
         "all control points of orders 1 to 4",
         "No test constructs a curve.",
         ["Bezier.py", "BezierUtilities.py"],
         [("_computeDirection", "Bezier.py", "comparison chains"), ("Bezier.__init__", "Bezier.py", "alignment and angle")]),
    prop("C32", "The ABC decomposition satisfies the projection identity",
         "For a parameter t of a quadratic or cubic curve the returned A, B, C and ratio satisfy: B is the curve point, "
         "C lies on the chord line and on the line through A and B, and the distances obey |BC| = ratio times |AB|.",
         "all quadratic and cubic curves and all parameters strictly between 0 and 1 with a well-defined C",
         "No test computes the decomposition.",
         ["Bezier.py", "BezierUtilities.py"],
         [("getABC", "Bezier.py", "hull points and line intersection"), ("quadraticRatio/cubicRatio", "BezierUtilities.py", "ratios")]),
    prop("C33", "Reducing a curve tiles it with simple pieces",
         "The reduced pieces of a curve, when there are any, trace the original on consecutive parameter intervals "
         "covering [0,1], and each is simple (its end normals differ by less than 60 degrees and a cubic's handles lie on "
         "one side of the chord). Curves of moderate curvature do have such pieces.",
         "all curves of order 2 and 3 through the simplicity criterion; tiling for representative curve families",
         "No test reduces a curve.",
         ["Bezier.py"],
         [("reduce", "Bezier.py", "two-pass splitting"), ("simple", "Bezier.py", "criterion")]),
    prop("C34", "Numeric helper functions satisfy their laws",
         "Range mapping is the affine map taking one range's ends to the other's; interpolation, approximate equality, "
         "tolerant betweenness, cube root (odd, inverse of cubing), duplicate removal (order preserving, first "
         "occurrences), min/max pairing, signed angles, unit conversion and flattening follow their definitions.",
         "all arguments",
         "No test calls these helpers.",
         ["BezierUtilities.py", "PathUtilities.py"],
         [("map/lerp/approximately/between/crt/removeDuplicates/angle/sqrt", "BezierUtilities.py", "definitions"),
          ("minMax/toMicros/flatten", "PathUtilities.py", "definitions")]),
    prop("C35", "A plotter is set up to fit its bounds, and its labels say where points are",
         "A new plotter covers exactly the bounds it is given, with content margins of a twentieth of their width (left and "
         "right) and height (top and bottom) in whole units rounded down, frame margins of 10 and labels half as high as the "
         "top margin. Text is placed where asked, relative to the margins or to the content; a curve's skeleton "
         "and hull label each control point, four units to the right and below, with its coordinates to two decimals.",
         "all bounds, all text positions, all control points of curves of order 1 to 3",
         "No test creates a plotter.",
         ["ContourPlotter.py"],
         [("ContourPlotter.__init__", "ContourPlotter.py", "margins and sizes"),
          ("drawText/drawSkeleton/drawHull", "ContourPlotter.py", "labels")]),
    prop("C36", "Operations leave their arguments alone and answer the same again",
         "An operation given lists (points, segments, contours, matrices, colors), rectangles, curves, transformations or "
         "glyphs leaves them exactly as they were, and asked again with the same arguments it gives the same answer; its "
         "earlier answer stays as it was. Except for the operations that hand back what they were given (fit, flatten, row, the "
         "matrix of a transformation of one matrix) the caller may change an answer's lists without affecting the "
         "arguments or later answers.",
         "every public operation that takes lists, on all coordinates of small inputs",
         "The tests call each function once and look at the answer only.",
         ["PathUtilities.py", "Transform.py", "CurveFitting.py", "MatrixInversion.py", "BezierUtilities.py", "Bezier.py",
          "SegmentPen.py", "ContourPlotter.py"],
         [("applyToContours", "Transform.py", "new lists of transformed points"),
          ("matrixInvert", "MatrixInversion.py", "works on a copy"),
          ("fit/multiply/transpose", "CurveFitting.py", "new matrices"),
          ("flatten/rotateContoursAbout/union/intersection", "PathUtilities.py", "new lists and rectangles"),
          ("Bezier/BContour/BOutline", "Bezier.py", "curves made from the caller's points"),
          ("addComponent", "SegmentPen.py", "a pen of its own for the component")]),
]

NOT_APPLICABLE = []
