"""Single source of the property list.  `python3 tools/props.py` rewrites
properties.jsonl and MANIFEST.json (they are committed; nothing else reads this file)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), technique=None, note=None):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mech],
                observe_at=list(observe), hook_needed=None,
            ),
            technique=technique, note=note,
        )
    )


RT = "pyrayt/_pyrayt.py"
CO = "pyrayt/components.py"
MA = "pyrayt/materials.py"
UT = "pyrayt/utils.py"
OP = "tinygfx/g3d/operations.py"
PR = "tinygfx/g3d/primitives.py"
WO = "tinygfx/g3d/world_objects.py"
CSG = "tinygfx/g3d/csg.py"
RE = "tinygfx/g3d/renderers.py"
GO = "tinygfx/g3d/materials/gooch.py"
CL = "tinygfx/g3d/materials/color.py"

prop("C01", "Every traced ray stops at the nearest surface ahead of it",
     "In every generation of a trace each live ray travels in a straight line to the first point ahead of its start where its line meets any surface of any component, its row ends exactly there and names exactly that surface. A ray with no surface ahead of it produces no row. This holds whatever the number, kind, nesting, placement, scale and listing order of the components.",
     ["inputs", "configurations"],
     "All systems of one or more leaf or compound components with any placement, all sources, every generation of every ray.",
     "The tests trace one or two spheres or planes along the x-axis; which surface is nearest depends on the whole scene, so it has to hold for every scene and every direction.",
     [RT, CSG, WO],
     [("nearest positive hit over all components", RT + ":RayTracer._st_propagate"),
      ("hit and surface sorting of compound objects", CSG + ":CSGSurface.intersect")],
     ["results rows: start, end, tilt, surface"],
     technique="property-based testing: generated scenes traced step by step against an interval-set reference model",
     note="Each recorded segment is checked against an independent geometric model; rays that graze an edge or tie within tolerance are skipped and counted.")

prop("C02", "The results table is a complete, gap-free history of every ray",
     "In the results of a trace every ray's generation numbers run 0, 1, 2, ... without gap or repeat, and rows, numbered 0, 1, 2, ... in the table, appear in ascending generation order. Every row's tilt is a unit vector and its end point is its start plus a positive multiple of the tilt, and each later row of a ray starts where its previous row ended, displaced only by the surface offset along its own tilt (at most 1e-5 unless the tracer's ray_offset_value is set). Ray ids number the emitted rays 0 to N-1 in source order, the first row of each id carries that emitted ray's position, direction, wavelength, intensity and index, and a ray's wavelength and id never change.",
     ["inputs", "configurations"],
     "All systems, source lists, ray counts and generation limits; every row of the results table.",
     "Tests look at the number of rows and a few end points for hand-made two-surface systems; chaining, numbering and bookkeeping must hold for every row of every trace.",
     [RT],
     [("row assembly", RT + ":_RayTraceDataframe.insert"), ("generation bookkeeping and offset", RT + ":RayTracer._st_interact"),
      ("id assignment", RT + ":RayTracer._st_initialize")],
     ["the results dataframe"],
     technique="property-based testing: invariants over every row of generated multi-source traces plus a reference emission model")

prop("C03", "Glass refracts by Snell's law with correct index bookkeeping",
     "Wherever a ray meets a glass surface its new direction is the one given by Snell's law in the plane of incidence, using the index it travels in, the glass's index at the ray's own wavelength when it goes in, and the surrounding index 1 when it goes out; beyond the critical angle it is totally reflected and keeps its index. The new direction has unit length, the next row's index is that of the medium it then travels in, and wavelength and intensity are unchanged. This holds for every incidence angle and azimuth, for each ray of a batch separately.",
     ["inputs"],
     "All unit directions and normals, all index pairs, all glasses and wavelengths, any surface shape and placement.",
     "Tests check a handful of angles on one plane and one index pair; the law must hold for every direction, index ratio, orientation and mixed batch.",
     [OP, MA, RT],
     [("vector Snell's law and TIR", OP + ":refract"), ("glass interaction", MA + ":Glass.trace")],
     ["results rows after a glass hit", "the vector refraction function"],
     technique="property-based testing against an independent angle-based Snell oracle, on the vector function and on traced rows")

prop("C04", "Mirrors reflect about the true surface normal and change nothing else",
     "Wherever a ray meets a mirror its direction is replaced by its mirror image about the tangent plane of the placed surface at the hit point, so the angle of incidence equals the angle of reflection whichever side is hit and however the surface is moved, rotated, scaled or combined. Length of the direction, wavelength, index, intensity and id are unchanged. Reflecting the same vector twice about the same normal restores it, for single vectors and for batches alike.",
     ["inputs"],
     "All directions, normals, batch sizes, mirror shapes and placements.",
     "Tests use axis-aligned vectors and one 45 degree plane; curved, scaled and inverted mirrors at arbitrary orientation are not sampled.",
     [OP, MA, WO],
     [("vector reflection", OP + ":reflect"), ("mirror interaction", MA + ":_ReflectingMaterial.trace"), ("world normals", WO + ":TracerSurface.get_world_normals")],
     ["results rows after a mirror hit", "the vector reflection function"],
     technique="property-based testing: algebraic laws and reference-geometry oracle for traced reflections")

prop("C05", "Rays end only by absorption, escape, weakness or the generation limit",
     "A ray that is absorbed has no row after the one that ends on the absorber, a ray whose intensity is below the tracer's threshold has no further row, and no ray has more rows than the generation limit. A ray that meets a surface ahead of it, is not absorbed, is not below the threshold and has not reached the limit always gets its next row. Rows before the end of a ray are unaffected by how other rays end, and raising the generation limit only appends rows.",
     ["inputs", "configurations"],
     "All systems mixing absorbers, mirrors, glass and attenuating materials, all thresholds, source intensities and generation limits.",
     "No test uses the intensity threshold or mixes ray fates in one batch; termination is a per-ray decision that must hold for every combination.",
     [RT, MA],
     [("dead-ray mask", RT + ":RayTracer._st_interact"), ("absorber", MA + ":_AbsorbingMaterial.trace")],
     ["row counts per ray"],
     technique="property-based testing: generated systems with mixed fates against a per-ray termination model, and a limit-prefix metamorphic relation")

prop("C06", "Rays meet primitive shapes exactly where their line crosses the surface",
     "Intersecting a ray with a sphere, cylinder, paraboloid, cuboid or rectangle gives the two distances, in ascending order and in units of the ray's direction length, at which the ray's whole line enters and leaves the placed shape (for the flat rectangle its single crossing, given twice), including crossings behind the start. A line that misses the shape gives no finite distance. This holds for any size, any sequence of moves, rotations and scalings, any start point inside or outside, any direction including those parallel or nearly parallel to a face or axis, and each ray of a batch is treated independently. Shapes written by name, with documented defaults left out, or a box by its sides, are the same shapes.",
     ["inputs", "histories"],
     "All shapes, dimensions, transform sequences and rays.",
     "Tests sample axis-parallel rays on unit shapes and a few moves; the crossing condition must hold on a continuum of rays with degenerate directions.",
     [PR, WO, OP],
     [("per-shape intersection", PR + ":*.intersect"), ("world to object coordinates", WO + ":TracerSurface.intersect"), ("root solver", OP + ":binomial_root")],
     ["intersection distances"],
     technique="property-based testing against an independent convex-clipping reference with its own transform algebra")

prop("C07", "Surface normals are unit, perpendicular to the surface and outward",
     "At every point of the surface of a sphere, cylinder, paraboloid, cuboid or rectangle the reported normal has unit length, zero homogeneous part, is perpendicular to the placed surface and points away from the enclosed solid (for the rectangle: towards the side of its own +z axis), after any sequence of moves, rotations and scalings. Inverting the normals flips exactly the sign and resetting restores it. A batch of points gives the same normals as the points one at a time.",
     ["inputs", "histories"],
     "All shapes, dimensions, transform sequences and surface points off the edges.",
     "Tests check normals on axis points of a few untransformed or once-scaled shapes; perpendicularity under non-uniform scale and rotation is a law over all points.",
     [PR, WO],
     [("per-shape normals", PR + ":*.normal"), ("inverse-transpose to world space", WO + ":TracerSurface.get_world_normals")],
     ["reported normals"],
     technique="property-based testing: reference gradient oracle and finite in/out probing on generated surface points")

prop("C08", "Compound objects are hit exactly on the boundary of their Boolean solid",
     "A ray's reported crossings with a union, intersection or difference, nested to any depth, are exactly the points where its line crosses the boundary of the corresponding Boolean combination of the placed children, in ascending order, each attributed to the child surface it lies on. This stays true after moving, rotating or scaling the whole, a part of it, or a part of a part, before or after the combination. A ray that never crosses the solid gets no finite crossing, and every ray of a batch is treated independently.",
     ["inputs", "histories"],
     "All trees of combinations over the five primitives (flat rectangles only where their Boolean is defined: as operand kept, not subtracted), all interleavings of combining and moving, all rays.",
     "Tests combine two spheres on the x-axis; nested trees moved at several levels and arbitrary rays are a history-dependent space.",
     [CSG, WO],
     [("sorted hit merge", CSG + ":array_csg"), ("bounding pre-test and surface attribution", CSG + ":CSGSurface.intersect"), ("child transforms", CSG + ":CSGSurface._append_world_transform")],
     ["intersection distances and surface ids of compound objects"],
     technique="property-based testing: generated build/move histories of CSG trees against an interval-set algebra reference")

prop("C09", "Compound objects' normals point out of the solid at every hit",
     "At every crossing of a ray with a union, intersection or difference nested to any depth, the normal reported by the surface named for that crossing is perpendicular to the surface and points out of the compound solid, so a ray going in opposes it and a ray coming out agrees with it. Inverting the normals of a compound object flips all of them, inverting again changes nothing more, and resetting restores them. This holds after any moves, rotations and scalings of the whole or its parts.",
     ["inputs", "histories"],
     "All Boolean trees including differences inside subtracted operands, all rays.",
     "Tests check the inversion flag of one difference of two leaves; the sign has to be right on every leaf of every tree.",
     [CSG, WO],
     [("inversion on difference", CSG + ":CSGSurface.__init__"), ("recursive inversion", CSG + ":CSGSurface.invert_normals/reset_normals")],
     ["normals at reported crossings"],
     technique="property-based testing: sign of normal against entry/exit parity from the interval-set reference")

prop("C10", "Bounding volumes always enclose their object",
     "At every moment of an object's life the reported axis-aligned bounding volume contains every point of the object, for primitives and for compound objects of any nesting. It stays so after any sequence of moves, rotations and scalings applied to the object, to a part of a compound, or to a part of a part. For an unrotated primitive the volume is tight: it touches the object's extent on every side (flat rectangles up to their small thickness padding).",
     ["inputs", "histories"],
     "All shapes and Boolean trees, all histories of build and transform operations.",
     "Tests check the box of a unit shape and one two-child tree after one move; staleness shows only in particular histories.",
     [WO, CSG, PR],
     [("box from transformed corner points", WO + ":TracerSurface._boundary_box_update_fn"), ("compound box maintenance", CSG + ":CSGSurface._update_bounding_box")],
     ["reported bounding volume"], technique="stateful property-based testing: generated transform histories, sampled reference points must lie in the box")

prop("C11", "Transforms compose in call order and stay invertible",
     "After any sequence of moves, rotations (degrees or radians), scalings and matrix transforms, the object-to-world transform is the product of the individual operations in call order, each applied about the world origin and axes. The world-to-object transform is always its inverse, position and unit orientation are the images of the object's origin and +z axis, the reported quaternion of a rigidly moved object describes its rotation, and coordinate conversion one way and back is the identity. Scaling by zero or a negative factor and unknown angle units are rejected with an error and leave the object unchanged; every other operation returns the object itself.",
     ["histories", "inputs"],
     "All operation sequences including rejected ones, for bare objects, surfaces and compound objects.",
     "Tests apply one or two operations from a fresh object; composition order and consistency of derived state are properties of all histories.",
     [WO],
     [("transform accumulation", WO + ":WorldObject._append_world_transform"), ("derived state", WO + ":WorldObject._world_matrix_update_handler")],
     ["transform matrices", "position", "orientation"],
     technique="stateful property-based testing against an independent matrix model")

prop("C12", "Pinned objects return to their starting state on leaving the context",
     "Every object pinned by the pin context manager has, once the context is left, the same world transform, position and orientation as when it was entered, whatever moves, rotations and scalings were applied inside. This holds when the context is left by an exception (which still reaches the caller), for several pinned objects at once, for nested contexts, and for compound objects and their parts and groups with their members, so that a ray meets them exactly where it did before. Objects that are not pinned keep their changes.",
     ["histories"],
     "All transform histories before and inside the context, all object kinds, exits by exception, nesting.",
     "Tests pin one or two objects for one move; restoration must invert every history.",
     [RT, WO],
     [("matrix difference on exit", RT + ":pin.__exit__")],
     ["transforms and hits after the context"],
     technique="stateful property-based testing: generated histories inside pin contexts, before/after comparison of transforms and ray hits")

prop("C13", "Deterministic sources emit exactly their documented ray pattern",
     "Line, circle, cone and wedge sources emit exactly the requested number of unit-direction rays in their documented pattern: evenly spaced over the full line (or centred for a single ray) along y, evenly around the circle of the given diameter with no ray repeated, evenly around the cone at exactly the given angle to +x from one point, and at angles evenly spread over the full wedge in the xy plane. The pattern is carried rigidly by any moves, rotations and scalings of the source, with directions renormalised. Every ray carries the source's current wavelength, index 1, intensity 100, generation 0 and distinct ids.",
     ["inputs", "histories"],
     "All source parameters, ray counts, wavelengths and transform histories.",
     "Tests sample one ray count and one or two orientations per source.",
     [CO, RT],
     [("local pattern", CO + ":*_local_ray_generation"), ("world transform and renormalisation", CO + ":Source.generate_rays")],
     ["the generated ray set"], technique="property-based testing against closed-form emission models under generated transforms")

prop("C14", "Lamps emit within their bounds with Lambertian intensity; static lamps repeat",
     "Every ray of a lamp starts inside the lamp's width (along y) by length (along z) rectangle, leaves within the maximum angle of its axis, and has intensity 100 times the cosine of that angle; over many rays starting points fill the rectangle uniformly and directions are uniform in solid angle. A static lamp emits the same rays each time the same number is asked for, independent of other lamps, of other ray counts asked for in between and of changes made to rays handed out earlier. Moving the lamp or changing its wavelength moves or recolours these rays and changes nothing else.",
     ["inputs", "histories"],
     "All lamp sizes, angles, ray counts, placements; all histories of generate / move / recolour calls over several lamps.",
     "Tests check one lamp once; the caching behaviour depends on call history and was not tested at all.",
     [CO],
     [("inverse CDF sampling", CO + ":_sphere_sample"), ("lamp emission", CO + ":Lamp._local_ray_generation"), ("per-lamp cache", CO + ":StaticLamp")],
     ["the generated ray set"], technique="property-based testing: support invariants, seeded distribution tests with generous bounds, stateful cache model")

prop("C15", "Lenses are exactly the solid their parameters describe",
     "A thick, biconvex or plano-convex lens occupies exactly the points within its aperture between its two surfaces: vertices at x = -thickness/2 and +thickness/2, each surface a sphere of the stated radius with the documented sign convention (planar for an infinite radius, absolute value for the convex-only lenses), first surface facing -x. The aperture is a circle of the given diameter, a rectangle or an ellipse with its stated y and z sizes. All its surfaces are of the requested glass, by default one with index 1.5, and their normals point out of the lens.",
     ["inputs", "configurations"],
     "All radius signs and magnitudes including infinite and unequal, thicknesses, aperture specifications, materials and ray directions.",
     "Tests check equal-radius lenses with circular apertures, mostly along the axis.",
     [CO, CSG],
     [("lens assembly", CO + ":thick_lens, biconvex_lens, plano_convex_lens"), ("aperture solid", CO + ":_create_aperture, _lens_full_thickness")],
     ["ray crossings of the lens"], technique="property-based testing: ray crossings against an analytic lens solid written from the documentation")

prop("C16", "Lenses focus paraxial rays where the lensmaker's equation says",
     "Collimated rays close to the axis of any thick, biconvex or plano-convex lens leave it so that their lines cross the axis at the lens's thick-lens back focal point for that glass and wavelength, real or virtual, as predicted from radii, thickness and index. The focal length helper agrees with the ratio of entry height to exit slope. Turning the lens round, moving or scaling the whole system, and scaling radii and thickness together change the focus accordingly.",
     ["inputs"],
     "All lens types, radii, thicknesses, glasses, wavelengths and small ray heights.",
     "The integration tests sample three fixed lenses and are not part of the unit suite.",
     [CO, UT, MA, RT],
     [("lensmaker's equation", UT + ":lensmakers_equation"), ("lens geometry and refraction", CO + ":thick_lens")],
     ["traced exit rays"], technique="property-based testing: traced paraxial rays against an independent ray-transfer-matrix oracle")

prop("C17", "Mirrors have the documented shape and focus",
     "A plane mirror reflects on both faces at x = -thickness and x = 0; a spherical mirror is the spherical surface through the origin with its centre at (radius, 0, 0), absorbing on its sides and back plane x = -thickness (a plane mirror for an infinite radius); a parabolic mirror is the paraboloid with its focus at the origin and vertex at x = -focus, absorbing elsewhere. Each is cut by its aperture (circle diameter, rectangle or ellipse y and z sizes) centred at the off-axis point in y and z. Consequently every ray parallel to the axis that meets a parabolic mirror is reflected through the origin, every ray from a spherical mirror's centre returns to it, and rays outside the aperture pass by.",
     ["inputs", "configurations"],
     "All focal lengths, radii, thicknesses, aperture specifications, off-axis offsets, placements and rays.",
     "Tests check one on-axis mirror each; elliptical and off-axis apertures are not constructed at all.",
     [CO],
     [("mirror assembly", CO + ":plane_mirror, spherical_mirror, parabolic_mirror")],
     ["ray crossings and reflected directions"], technique="property-based testing: analytic mirror solid and focal-point metamorphic oracle")

prop("C18", "Baffles and apertures absorb exactly their stated region",
     "A baffle absorbs exactly the rays that cross the yz plane through its origin inside its stated circle (diameter), rectangle or ellipse (y and z sizes), wherever it is moved or rotated, and no others. An aperture absorbs exactly the rays that cross inside its outer size and outside its opening, and lets all other rays through unchanged.",
     ["inputs", "configurations"],
     "All size and opening specifications (circle, rectangle, ellipse), placements and rays.",
     "There is no test that builds an aperture stop, and baffles are built only as squares.",
     [CO, CSG, PR],
     [("baffle and aperture assembly", CO + ":baffle, aperture"), ("flat rectangle", PR + ":Plane.intersect")],
     ["traced rows"], technique="property-based testing: traced rays against an analytic in-region predicate")

prop("C19", "Equilateral prisms have exact geometry and minimum deviation",
     "An equilateral prism of side s and width w is the equilateral triangle of side s in the xz plane, centred between its base at the bottom (parallel to the xy plane) and its apex, extruded over w along y; a ray crosses it exactly on that solid's faces. A ray passing symmetrically through two side faces is deviated by the minimum-deviation angle 2*asin(n*sin 30 deg) - 60 deg for the glass's index at its wavelength, and shorter wavelengths are deviated more in a normally dispersive glass.",
     ["inputs", "configurations"],
     "All side lengths, widths, glasses, wavelengths, placements and rays.",
     "No unit test examines the prism's geometry.",
     [CO, CSG],
     [("prism assembly", CO + ":equilateral_prism")],
     ["ray crossings and traced exit directions"], technique="property-based testing: analytic half-space model and minimum-deviation oracle")

prop("C20", "Glass dispersion follows the Sellmeier equation element-wise",
     "A Sellmeier glass's index at a wavelength is the square root of 1 plus its three resonance terms, for single values and element-wise for arrays of any shape; a constant-index glass gives its index at every wavelength. The Abbe number is the index at 0.5893 um minus one over the difference of the indices at 0.4861 and 0.6563 um and follows any change of the coefficients. In a trace every ray of a mixed-wavelength batch is refracted with the index of its own wavelength, as if it were traced alone, and the catalogued glasses match their published indices.",
     ["inputs", "histories"],
     "All coefficients, wavelengths, array shapes; all mixed-wavelength traces; all coefficient update histories.",
     "Tests check one or two published indices at single wavelengths.",
     [MA],
     [("Sellmeier equation", MA + ":SellmeierRefractor.index_at"), ("Abbe number", MA + ":Glass.abbe"), ("per-ray index", MA + ":Glass.trace")],
     ["index values", "index column of results"], technique="property-based testing against a direct scalar evaluation and published reference data, with mutation histories")

prop("C21", "Tracing is equivariant and every ray is traced independently",
     "Moving and rotating a whole system (sources and components together) moves its results rigidly and changes nothing else; scaling the whole system scales it. Listing components or sources in another order, adding components no ray reaches, or tracing a subset of the rays gives the same path for every ray. Tracing twice gives identical results, and a ray's path reversed from its last point retraces the same points through glass and mirrors.",
     ["inputs", "configurations"],
     "All systems, rigid motions, scale factors, orderings and ray subsets.",
     "Metamorphic relations between two whole traces cannot be settled by examples; no test compares two traces.",
     [RT, CSG, WO],
     [("batch propagation", RT + ":RayTracer._st_propagate/_st_interact")],
     ["results dataframe of paired traces"], technique="metamorphic property-based testing over pairs of generated traces")

prop("C22", "A reused tracer always gives the result of a fresh one",
     "After any sequence of tracing, resetting, loading other components, editing the component list, moving or re-materialising components, changing the rays per source or the generation limit, and failed or repeated traces, the next trace gives exactly what a newly created tracer with the current configuration would give. The getters return the current configuration, the latest results stay available until the next trace or reset, and a reset empties them. However a tracer is created, from single objects, tuples or groups, by name or with the stated defaults, it traces the same.",
     ["histories"],
     "All call histories on one tracer.",
     "Tests create a new tracer for every trace; state left over between traces is only visible in histories.",
     [RT],
     [("reset and surface table rebuild", RT + ":RayTracer.reset/_st_initialize/load_components")],
     ["results and getters after each call"], technique="stateful (model-based) property-based testing, differential against a fresh tracer")

prop("C23", "Tracing and rendering never change components, sources or inputs",
     "Running a trace, plotting or rendering leaves every component's and source's transform, orientation, bounding volume, material and reported ray crossings unchanged, and results handed out by an earlier trace are not altered by a later one. Intersecting, generating rays and asking for normals do not modify the arrays passed in.",
     ["inputs", "histories"],
     "All systems, all sequences of trace / render / query calls.",
     "No test looks at inputs after a call.",
     [RT, WO, CSG, RE, PR],
     [("copies of ray sets", RT + ":RayTracer._st_interact"), ("local copies of rays and points", PR + ":*.intersect/normal")],
     ["object state before and after"], technique="property-based testing: state snapshots before and after generated call sequences")

prop("C24", "Rendered images show exactly the visible surfaces at each pixel",
     "A camera's pixel grid covers its stated width and aspect ratio in its own frame, one ray per pixel in row order, all parallel to its viewing direction wherever it is placed. In a shaded rendering each pixel takes the colour of the nearest surface in front of the camera, shaded at the hit point with that surface's material, and pixels that see nothing are fully transparent; surfaces behind the camera are not shown. An edge rendering is opaque exactly around the pixels where the visible surface changes (lines reach one pixel to each side, and one more for every 300 pixels of the longer side of a large image beyond the first 300), with the image shape equal to the camera's resolution.",
     ["inputs", "configurations"],
     "All cameras, placements, resolutions, lights and scenes.",
     "Tests only check the shape of one image.",
     [RE, WO],
     [("nearest hit per pixel", RE + ":_st_propagate"), ("edge detection and shading", RE + ":_st_interact"), ("pixel grid", WO + ":OrthographicCamera")],
     ["rendered arrays"], technique="property-based testing: per-pixel reference render through the geometric model")

prop("C25", "Drawings show components where they are, from every position",
     "Drawing components in the xy or xz view puts an image on the axes whose extent contains the projected components, and every clearly interior or exterior location of the image is drawn (or left transparent) according to whether a component projects there, with +x to the right and +y or +z up. Objects nearer the viewer (higher z, respectively lower y) hide the ones behind. This holds wherever the components are in space, including far from or below the origin, and however thin they are, without error. When bounds are given, the region shown contains them and depends on them alone, whatever is drawn.",
     ["inputs", "configurations"],
     "All component sets, positions, sizes, views, resolutions and bounds.",
     "No test calls the drawing function.",
     [RE, WO],
     [("camera placement", RE + ":_draw_xy, _draw_xz"), ("span and resolution", RE + ":draw")],
     ["the image and extent placed on the axes"], technique="property-based testing: image pixels against the projected reference model")

prop("C26", "Gooch shading blends warm and cool by the angle to the lights",
     "The shaded colour of a point is the mix of the warm shade and the cool shade in proportion (1 + n.l)/2 to the cosine between the normal and the direction to the light, averaged over all lights, where each shade blends its own colour with the base colour by alpha or beta. It therefore equals the warm shade facing the light and the cool shade facing away, and depends on neither the distance to the light, nor the order of lights, nor other points in the batch.",
     ["inputs"],
     "All colours, blend factors, points, normals and numbers of lights.",
     "Tests check three normals with one light; several lights were never exercised.",
     [GO, CL],
     [("shading", GO + ":GoochMaterial.shade")],
     ["returned pixel values"], technique="property-based testing against a scalar reference shader and metamorphic relations")

prop("C27", "Wavelength colours are valid, continuous and clipped outside the visible band",
     "Every wavelength maps to red, green and blue values between 0 and 1 following the piecewise linear spectrum (0.38-0.44-0.49-0.51-0.58-0.645-0.75 um) raised to gamma, continuous in wavelength, with wavelengths outside 0.38-0.75 um given the colour of the nearest limit. An array gives one colour row per element in order, equal to converting each wavelength alone.",
     ["inputs"],
     "All wavelengths, arrays and gamma values.",
     "Tests do not cover the conversion at all band edges or single values.",
     [UT],
     [("piecewise conversion", UT + ":wavelength_to_rgb")],
     ["returned colours"], technique="property-based testing against a scalar piecewise reference plus continuity and batch relations")

prop("C28", "Quadratic root finding returns the true roots in every regime",
     "For any coefficients the quadratic solver returns both real roots of a*x^2 + b*x + c to high relative accuracy, including when the leading coefficient is tiny, negative or zero (the linear root, twice), and infinity for both when there is no real root; with neither a nor b it returns an unbounded interval (-inf, inf) when c <= 0 and inf twice otherwise. The smallest-positive-root helper returns the smallest non-negative root, or infinity if there is none. Arrays give the same answer as each element alone.",
     ["inputs"],
     "All coefficient triples over many orders of magnitude, scalars and arrays.",
     "Tests use small integer coefficients; cancellation and degenerate regimes are not reached.",
     [OP],
     [("root formulas and degenerate branches", OP + ":binomial_root, smallest_positive_root")],
     ["returned roots"], technique="property-based testing against exact rational/decimal arithmetic")

prop("C29", "Merging sorted crossing lists implements the Boolean operation",
     "Given two sorted lists of entry/exit distances of two objects along each ray, merging them with union, intersection or difference yields exactly the entry/exit distances of the combined object, sorted and padded with infinity, for any number of crossings per object and any number of rays, column by column. Crossings at infinity (misses) contribute nothing, and an unknown operation is rejected with an error.",
     ["inputs"],
     "All pairs of sorted even-length lists (one- or two-dimensional, with misses) and the three operations.",
     "Tests use four hand-made interval pairs.",
     [CSG],
     [("counting merge", CSG + ":array_csg")],
     ["returned arrays"], technique="property-based testing against point-membership evaluation of interval sets")

prop("C30", "Ray sets are consistent live views of one block of memory",
     "Every field of a ray set (positions and directions, generation, intensity, wavelength, index, id) is a writable view: writing one field changes exactly that field and is seen by every later read, also through the combined metadata view. A new ray set has distinct ids 0 to n-1, generation 0, index 1, intensity 100, wavelength 0.633 um and homogeneous coordinates (1 for points, 0 for vectors). Copies are independent, column slices, masks and concatenations of ray sets keep every field of every selected ray together.",
     ["inputs", "histories"],
     "All sizes, write/slice/copy/concatenate sequences.",
     "Tests write each field once on a fresh set.",
     [RT],
     [("property views", RT + ":RaySet")],
     ["field reads after writes"], technique="stateful property-based testing against a dictionary-of-arrays model")

prop("C31", "Plots and source labels match the traced results",
     "After a trace, plotting in the xy or xz view draws one arrow per results row, from its start to its end point in the projected coordinates, coloured by its wavelength, by its source, or uniformly as asked. The added source column numbers each row's source in source order, whatever settings were changed after the trace. Without a trace only the components are drawn.",
     ["inputs", "histories"],
     "All systems, views, colour functions and post-trace setting changes.",
     "No test plots results.",
     [RT, UT],
     [("arrow plot", RT + ":RayTracer.show"), ("source labels", RT + ":RayTracer.calculate_source_ids")],
     ["artists on the axes", "source column"], technique="property-based testing: artists inspected against the results table")

prop("C32", "Groups and compound objects carry their members rigidly",
     "Moving, rotating, scaling or transforming a group or compound object applies the same operation to every member, at any nesting, so members keep their relative placement, while moving a member does not move the group or its siblings. A group behaves as a list: members added later are carried by later operations only, removed members no longer are.",
     ["histories"],
     "All histories of list edits and transforms over nested groups and compound objects.",
     "Tests move a two-member group once.",
     [WO, CSG],
     [("propagation to members", WO + ":ObjectGroup._append_world_transform, " + CSG + ":CSGSurface._append_world_transform")],
     ["member transforms"], technique="stateful property-based testing against an independent scene-graph model")


prop("C33", "Points, vectors, rays and colours are live named four-vectors",
     "Points, vectors and colours hold the given coordinates followed by the right last component (1 for points and opaque colours, 0 for vectors), also when arguments are omitted or named; reading or writing a named component or an index always reaches the same number, through every view, and never another object. Normalising scales a vector to unit length in place and returns it. A ray's origin and direction are live views; rays and bundles copy what they are made from, a bundle keeps rays in order, and dot products run along the asked axis.",
     ["inputs", "histories"],
     "All coordinate values, constructor forms, sequences of reads, writes, copies and views; all array sizes and layouts.",
     "Tests write each component once on one fresh object; aliasing and defaults only go wrong after a sequence of steps.",
     [PR, OP, CL],
     [("named coordinates", PR + ":HomogeneousCoordinate, Point, Vector, Ray"), ("bundles", PR + ":bundle_of_rays, bundle_rays"), ("dot products", OP + ":element_wise_dot"), ("colours", CL + ":RGBAColor")],
     ["component reads after writes"], technique="stateful property-based testing against plain lists of numbers")

prop("C34", "Flat shapes contain exactly the points inside their outline",
     "A disk contains exactly the points of the plane within its radius of the origin, and a rectangle exactly the points within half its sides of the origin along x and y, edges included. A disk can be given by radius or by diameter. Every point of a batch is decided as if it were passed alone, mirror-image points are decided alike, and the points passed are not changed.",
     ["inputs"],
     "All sizes and all points, single or batched.",
     "Tests pass a handful of points at convenient places.",
     [PR],
     [("membership", PR + ":Disk.point_in_shape, Rectangle.point_in_shape")],
     ["returned booleans"], technique="property-based testing against exact rational membership")

prop("C35", "User-defined materials, sources and surfaces plug into a trace",
     "A user-defined material is handed, with the surface it is attached to, exactly the live rays that reach that surface, each once per hit, at its hit point with its travelling direction, generation, id, intensity, wavelength and index. Whatever it answers, in place or as a new ray set, is what the ray continues with, and a zero direction ends the ray. Terminated rays are never handed over. A user-defined source is asked once for the set number of rays and its per-ray fields arrive unchanged, placed by its own transform. A user-defined surface behaves like the library's surface of the same shape, in whatever order it lists its crossings.",
     ["inputs", "configurations"],
     "All user-written materials (programs over the documented ray fields), sources and surface shapes, in all scenes.",
     "No test defines a material; what user code is handed depends on the whole history of every ray.",
     [RT, MA, CO, WO],
     [("dispatch to materials", RT + ":RayTracer._st_interact"), ("material interface", MA + ":TracableMaterial.trace"), ("source interface", CO + ":Source.generate_rays"), ("surface interface", WO + ":TracerSurface")],
     ["arguments user code receives", "results rows"], technique="property-based testing: generated recording materials, sources and surfaces matched one to one with the results table")

prop("C36", "Traced light obeys Fermat's principle, reversibility and skewness",
     "Through any bench of lenses, mirrors, prisms, plates, scaled and compound shapes: neighbouring rays have optical path lengths that differ, to first order, exactly as a common wavefront requires (Fermat's principle, Malus-Dupin); a ray sent back along its last segment retraces its path through the same hit points with the same indices and leaves along its original line; and on a bench of components symmetric about one axis every ray's skewness about that axis, index times the axial component of position cross direction, never changes.",
     ["inputs", "configurations"],
     "All non-overlapping benches in any placement, unit and listing order; all rays that stay clear of edges, grazing and critical incidence.",
     "Integration tests look at the focus of single lenses; these laws tie every hit, normal, index and direction of whole systems together without a model of the geometry.",
     [RT, CO, MA, OP, PR, WO, CSG],
     [("propagation and interaction", RT + ":RayTracer._st_propagate, _st_interact"), ("refraction and reflection", OP + ":refract, reflect"), ("normals", WO + ":TracerSurface.get_world_normals")],
     ["results rows: start, end, tilt, index"], technique="property-based testing: metamorphic laws of optics between neighbouring, reversed and successive ray segments")

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k not in ("technique", "note")}
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    checks = []
    na = []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            checks.append(dict(
                property=p["id"],
                quick_cmd="/opt/venv/bin/python run.py %s" % p["id"],
                thorough_cmd="VERIF_TIER=thorough /opt/venv/bin/python run.py %s" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique=p["technique"],
                level="exploration",
                level_note=(p["note"] or "Generated-input search with an explicit oracle; no counterexample within the counted cases. Trusts the reference model in vlib, NumPy and Hypothesis; does not establish absence."),
            ))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1,
             setup_cmd="/opt/venv/bin/python run.py --selfcheck",
             checks=checks, not_applicable=na,
             notes="One runner (run.py) drives Hypothesis over JSON-serialisable case specs; oracles live in vlib/ and checks/. Known findings and fixed defects: known_findings.txt. No hooks in /repo are needed.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "checks", len(na), "n/a")


if __name__ == "__main__":
    main()
