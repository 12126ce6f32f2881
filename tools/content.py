"""What is claimed: the source of properties.jsonl, MANIFEST.json, plan.json and known_findings.json."""
M = "raytracing/matrix.py"
G = "raytracing/matrixgroup.py"
I = "raytracing/imagingpath.py"
SYS = ("Random systems of spaces, lenses, curved mirrors, dielectric interfaces, thick lenses, slabs, apertures, generic matrices "
       "(with or without length and vertices) and nested groups, in media of index 1 to 2, of either sign of power; ")


def P(id, title, statement, over, forall, why, files, mechanism, observe, rule, required, cases, technique, note="", assumptions=()):
    return dict(id=id, title=title, statement=statement, over=over.split(), forall=forall, why=why, files=files, mechanism=mechanism,
                observe=observe, rule=rule, required=required, cases=cases, technique=technique, note=note, assumptions=list(assumptions))


MODEL = "runtime monitoring: reference model as oracle over generated executions"

PROPERTIES = [
P("C01", "A system is the ordered product of its elements, however it is put together",
  "The ABCD matrix, length, front and back refractive indices and vertices of any system equal those of the textbook elements composed in the "
  "order light meets them, whether it was built from a list, by appending, by nested groups or by products with any bracketing. The determinant "
  "is always the front index divided by the back index. Grouping or multiplying elements changes neither the elements nor their order.",
  "inputs programs", "every sequence of elements and every way to bracket or group it",
  "Unit tests multiply two or three chosen elements; associativity and the agreement of the ways to compose are statements over all sequences, indices and nestings.",
  [M, G], [("products of matrices", M + ":Matrix.mul_matrix"), ("recomputed matrix of a group", G + ":MatrixGroup.append, transferMatrix, transferMatrices"),
           ("matrices of the elements", M + ":Lens, Space, CurvedMirror, DielectricInterface, ThickLens, DielectricSlab")],
  ["A, B, C, D, L, frontIndex, backIndex, frontVertex, backVertex, determinant of elements, products and groups"],
  SYS + "built as a list, tuple, generator or by append, in nested groups, and multiplied with two random bracketings. Non-trivial: at least two elements.",
  ["bracketed products", "products with an identity", "nested groups", "group products", "groups built by append", "groups built by generator"], (24000, 200000), MODEL),

P("C02", "After any edits, a group is exactly the ordered list of its elements",
  "After any sequence of append, insert, pop, item or slice assignment, flip and load, a group holds exactly the elements of the equivalent list "
  "operations, in order, and its matrix, length, indices, partial products and ray traces are those of a fresh group of these elements. Negative "
  "and open indices work as in a list, and loops over a group may be nested. An edit that is refused (not an element, out of range, incompatible "
  "media) raises its exception and leaves the group unchanged.",
  "histories", "all histories of edits of a group, with reads in between",
  "Tests perform one edit on a two-element group; stale caches and misplaced elements appear only in histories of edits and reads.",
  [G], [("edits with undo on refusal", G + ":insert, pop, __setitem__, append, load"), ("trace cache", G + ":trace")],
  ["len, iteration, indexing, slices, matrix and traces of the group after each edit; exceptions"],
  "Random histories of 3 to 10 edits (a fifth of them invalid) on groups, imaging paths and laser paths of 0 to 5 elements, in several media; after each one "
  "the whole group is compared to a list model and traced. Non-trivial: at least one edit was accepted.",
  ["refused edits", "elements taken one at a time", "slices with any step", "traces"], (18000, 120000), "runtime monitoring: list model over histories of edits"),

P("C03", "Tracing a ray is the action of the matrices, whatever was traced before",
  "Tracing a ray gives the input ray followed, per element in order, by its position, height and angle as given by the product of the matrices of the "
  "elements so far, positions increasing by the lengths of the elements. The result does not depend on what was traced before (same or equal rays, "
  "changes of the elements in between) and a trace that was returned never changes. Neither the input ray nor the system is modified.",
  "inputs histories", "all systems, rays, and histories of traces and element changes",
  "Tests trace one ray once in a small system; the caching of traces makes the answer depend on history.",
  [M, G], [("single element", M + ":Matrix.mul_ray, trace, traceThrough"), ("groups and their cache", G + ":MatrixGroup.trace")],
  ["the rays of returned traces: y, theta, z; the input rays and elements before and after"],
  SYS + "and axicons; histories of 3 to 7 traces of 2 to 5 rays with changed apertures or elements in between. Non-trivial: some ray goes through.",
  ["equal rays traced together", "traces", "positions along a trace", "changes between traces", "changes of length or power between traces", "elements that stand several times", "unblocked traces"], (30000, 200000), MODEL),

P("C04", "Rays are blocked exactly by apertures and angle limits, and stay blocked",
  "A ray is blocked by an element if and only if it reaches it higher than half its diameter or at more than its limit angle, rays exactly at the edge "
  "going through. A blocked ray goes no further: its height, angle and position stay those of the place where it was blocked, and every later point of "
  "its trace is blocked; rays that arrive blocked stay so. Tracing many rays keeps exactly the rays that are not blocked at the end.",
  "inputs", "all systems with finite apertures, all rays, including those exactly at and one float beyond an edge",
  "Tests check a few rays on one aperture; the property is about every aperture of every system, and the edges.",
  [M, G], [("test of height and angle", M + ":Matrix.mul_ray, trace"), ("propagation of the flag", G + ":trace")],
  ["isBlocked, y, theta, z of all points of the traces; the rays kept by traceManyThrough"],
  SYS + "with apertures on most elements, 8 rays each; a quarter of the cases are rays exactly at, and one float beyond, the edge of one element of each kind. "
  "Non-trivial: some rays are blocked and some go through, or edges.",
  ["blocked rays", "transmitted rays", "rays at the edge", "rays that arrive blocked"], (30000, 200000), MODEL,
  "Rays that leave an element of finite length beyond its aperture are known finding exit-aperture and not judged there."),

P("C05", "Tracing many rays, serially or in parallel, gives the results of each ray",
  "Tracing many rays returns one trace per ray in the same order, equal to the trace of that ray alone; tracing them through returns the last ray of "
  "those, in order, that are not blocked. In parallel, with any number of processes and even if the pool of processes fails, the result has exactly the same "
  "rays, each as often as expected. The profile of traces at a position has the rays not blocked there, at their heights there; the "
  "rays and the system are not modified, whether the rays come as a list, a tuple, a generator, or any kind of ray source. Several threads may trace through the same system at once.",
  "inputs schedules fault_sequences", "all sets of rays (repeated, blocked, none), sources, numbers of processes, and failures of the pool",
  "Tests run one parallel trace on one machine; the split of the rays over processes, the failures of the pool and the sizes of the input are not covered.",
  [M, "raytracing/rays.py"], [("serial", M + ":traceMany, traceManyThrough"), ("split, pool and fallback", M + ":traceManyThroughInParallel"),
                              ("profile", I + ":profileFromRayTraces or " + G)],
  ["returned rays and traces; the same after injected failures of the pool"],
  SYS + "0 to 40 rays from 8 kinds of sources, some repeated or blocked; in an eighth of the cases real processes (1 to one more than the rays), in all of them a "
  "stand-in pool that fails when created, entered, during the map, after the first part, or at exit; now and then four threads at once, with a switch interval of a microsecond. Non-trivial: some rays are lost and two transmitted, or a parallel run.",
  ["runs in several threads", "traceMany", "traceManyThrough", "parallel runs", "pool faults injected", "profiles", "rays blocked"], (4000, 40000),
  "runtime monitoring: multiset oracle over parallel runs and injected pool failures"),

P("C06", "The aperture stop, marginal and chief rays, pupil and f-number are consistent",
  "The aperture stop is the aperture that limits most the cone of rays from the axial point of the object: real on-axis rays just inside this cone pass and those just "
  "outside are blocked at the stop. The marginal rays hit its two edges, the axial ray is the marginal ray from the axis, the chief ray crosses the axis at it, the entrance "
  "pupil is its image by what stands before it, the numerical aperture is the index times the sine of the axial ray and the f-number is the focal length divided "
  "by the pupil. Without finite aperture there is no stop, pupil, marginal or chief ray; the answers follow a change of an aperture and do not modify the system.",
  "inputs histories", "all imaging systems with any apertures, before and after changing an aperture",
  "Tests have a handful of systems with one or two apertures; which aperture limits, and its image, depend on every element.",
  [I], [("stop by the most clipped test ray", I + ":apertureStop"), ("rays", I + ":marginalRays, axialRay, chiefRay"), ("pupil, NA, f-number", I + ":entrancePupil, NA, fNumber")],
  ["the answers of an ImagingPath; real traces around the edge of the cone"],
  SYS + "in imaging paths with an object distance, apertures on 0 to 90 % of the elements; asked again after a diameter changed. Non-trivial: a stop exists away from an image of the object.",
  ["aperture stops", "marginal rays", "chief rays", "entrance pupils", "f-numbers", "cones checked with real rays", "stops among several apertures", "systems without aperture",
   "diameters changed between questions"], (24000, 150000), MODEL),

P("C07", "The field stop and the field of view tell which object points are seen",
  "The field of view is the largest object (centered on the axis) whose chief rays go through: chief rays from just inside of it pass, those from just outside are blocked, at the field "
  "stop. The principal ray is the chief ray of the edge of the field, the Lagrange invariant is that of the axial and principal rays, the image size is the field of view times the "
  "magnification. Without aperture stop, or if nothing limits the field, the field of view is infinite and there is no field stop; the answers follow a change of an aperture and do not modify the system.",
  "inputs histories", "all imaging systems with an aperture stop, before and after changing an aperture",
  "Tests compare a few known systems; the search for the limit must converge and agree with real rays for every system.",
  [I], [("search by chief rays", I + ":fieldStop, halfFieldOfView, fieldOfView"), ("derived", I + ":principalRay, lagrangeInvariant, imageSize")],
  ["the answers of an ImagingPath; real chief rays around the limit"],
  SYS + "as for C06. Non-trivial: a finite field of view, distinct systems and limits. Tolerance of the search: 8e-6.",
  ["finite fields of view", "infinite fields of view", "no aperture stop", "chief rays traced", "field stops shown by real rays", "image sizes", "diameters changed between questions"], (1600, 30000), MODEL,
  "Not judged: systems with several equal stops, a stop within 1e-2 of an image of the object, fields limited at the exit of a thick element."),

P("C08", "Conjugate planes, magnifications and intermediate images are where rays meet",
  "Propagating an object forward to the conjugate plane a system reports makes an imaging system (height independent of angle) with the reported transverse and angular magnification, "
  "backward likewise for the point whose image is at the back, in whatever media; an infinite conjugate is reported exactly when rays leave parallel. An imaging system reports itself "
  "as such, with its magnification, and other systems report none. The intermediate images are exactly the planes inside the system where an image forms, in order, with their magnifications.",
  "inputs", "all systems and media, including objects at a focus and afocal systems",
  "Tests compute conjugates of one or two lenses in air; the singular cases and the media are not sampled.",
  [M, G, I], [("conjugates", M + ":forwardConjugate, backwardConjugate, magnification, isImaging"), ("intermediate images", G + ":intermediateConjugates"), ("spaces up to an image", G + ":ToConjugate")],
  ["forwardConjugate, backwardConjugate, magnification, isImaging, intermediateConjugates, ToConjugate"],
  SYS + "a third of them special (exactly imaging, 4f, object or image at a focus). Non-trivial: distinct systems with a finite conjugate.",
  ["forward conjugates", "backward conjugates", "images at infinity", "images far away", "imaging systems", "intermediate planes", "special systems", "systems that do not image", "image sizes", "spaces up to the image"],
  (32000, 200000), MODEL),

P("C09", "Focal lengths, principal planes and focal points are where rays say they are",
  "The focal points of a system are where it sends parallel rays (and where rays must come from to leave parallel), the principal planes are one focal length from them, focal lengths in "
  "different media are in the ratio of the back and front indices, and back and front focal lengths are measured from the vertices. Propagating to the focus, or from focus to focus, makes "
  "the systems with A = 0 (and D = 0). A system without power reports infinite focal lengths and no planes; the questions do not modify the system.",
  "inputs", "all systems, media and positions",
  "Tests check thin and thick lenses in air; principal planes of compound systems in media are statements over all systems.",
  [M, G], [("cardinal points", M + ":effectiveFocalLengths, principalPlanePositions, focusPositions, backFocalLength, frontFocalLength"), ("spaces up to the focus", G + ":ToFocus; " + M + ":fromFocusToFocus")],
  ["the answers, compared to the model and to real rays through the focal points"],
  SYS + "as elements, products or groups, at any position z. Non-trivial: power (|C| > 2e-5).",
  ["systems with power", "systems without power", "rays through focal points", "spaces up to the focal points"], (40000, 200000), MODEL),

P("C10", "Turning an element or a group around is what it says, and undoes itself",
  "Flipping an element or group gives the system met by light that comes from the other side: elements reversed in order and each turned around, lengths, apertures and media kept, front and back "
  "exchanged, focal lengths, principal planes and vertices mirrored, determinant inverted. A ray that went through comes back along the same path, and flipping twice restores everything. A "
  "flipped mirror shows its other face, a lens its surfaces in the other order; labels stay; an element that stands several times in a group is turned around in each place.",
  "inputs histories", "all elements, groups (nested, with repeated elements) and numbers of flips",
  "Tests flip a few elements and compare to chosen values; reversibility is a statement over every system and ray.",
  [M, G, "raytracing/specialtylenses.py"], [("flips", M + ":flipOrientation of Matrix, CurvedMirror, DielectricInterface, ThickLens; " + G + ":flipOrientation")],
  ["matrix, length, indices, vertices, apertures, cardinal points and traces after flips"],
  SYS + "flipped once, twice and four times, real rays sent through and back. Non-trivial: distinct systems.",
  ["flips", "rays sent back", "cardinal points compared", "systems with mirrors", "objects there twice", "mirrored systems", "flips of the catalogue", "flips of thick", "flips of interface", "flips of group"], (30000, 200000), MODEL,
  "The vertices of a generic matrix with a length and explicit vertices are known finding explicit-vertices and not judged."),

P("C11", "The optical invariant of two rays is conserved everywhere in a system",
  "The optical invariant n(θ₁y₂ − θ₂y₁) of two rays that are not blocked has the same value at the input, at every position inside of a system, at its end and beyond, whatever media it goes through, "
  "and equals what the points of their traces give. It changes sign when the rays are exchanged, and is zero for a ray with itself. Computing it modifies neither rays nor system.",
  "inputs", "all systems, pairs of rays and positions", "Tests check one lens; conservation is for all systems, media and positions.",
  [M], [("invariant at a position", M + ":opticalInvariant (transferMatrix up to z)")], ["opticalInvariant at several z, traces"],
  SYS + "3 pairs of rays each, at 5 positions. Non-trivial: more than one element and rays that are not proportional.",
  ["invariants", "invariants inside of the system"], (30000, 200000), MODEL),

P("C12", "Gaussian beams follow the ABCD law and report consistent sizes",
  "A Gaussian beam goes through any system by the ABCD law in the right medium, and its index, wavelength, position, size, radius of curvature, waist, waist position and Rayleigh range are always those "
  "of its complex radius, with the same result element by element, by group or by product; in free space the waist stays where it is. It is reported as clipped from the first "
  "element that it leaves wider than the aperture, and only then. A beam that contradicts itself (size and complex radius) or the index in front of the system is refused; the input beam and the system are not modified.",
  "inputs", "all beams (w, R, λ, n), systems, media and groupings",
  "Tests propagate a few beams in air through one or two elements.",
  ["raytracing/gaussianbeam.py", M, "raytracing/laserpath.py"], [("ABCD law and clipping", M + ":mul_beam"), ("sizes", "raytracing/gaussianbeam.py:GaussianBeam"), ("traces", G + ":trace")],
  ["q, w, R, wo, zo, waistPosition, n, z, isClipped of all beams of traces and products"],
  SYS + "beams of 5 µm to 30 mm, any curvature, three ways to describe them. Non-trivial: more than one element.",
  ["beams judged", "beams through whole systems", "clipped beams", "beams not clipped", "traces of beams"], (28000, 150000), MODEL,
  "Sizes are judged where rounding errors in the complex radius leave them meaningful (the error is propagated)."),

P("C13", "A stable laser cavity has exactly one mode, which repeats; others have none",
  "A cavity is stable exactly if half the trace of its round trip is between −1 and 1; it then has exactly one mode, with a finite size, that comes back unchanged (size, curvature, index) when it is sent "
  "around the cavity, and none otherwise. Completing a cavity by its elements in reverse gives the way back: same matrices turned around, mirrors showing the same side, with the end elements left "
  "out on request, and without changing the elements of the way forward.",
  "inputs", "all cavities, linear or rings, with or without media", "Tests have a few cavities; stability and reproduction of the mode are for all round trips.",
  ["raytracing/lasercavity.py", G], [("modes", "raytracing/lasercavity.py:eigenModes, laserModes, isStable"), ("way back", G + ":appendElementsInReverse")],
  ["isStable, eigenModes, laserModes, the elements and matrix of the round trip, beams sent around"],
  "Random cavities of 1 to 8 elements (mirrors, lenses, crystals, slabs, groups, matrices with A different from D) as a round trip or completed in reverse. Non-trivial: power.",
  ["stable cavities", "unstable cavities", "modes sent around", "eigenmodes", "round trips made by reversing"], (28000, 150000), MODEL,
  "Cavities within rounding errors of the limit of stability are not judged."),

P("C14", "Ray sources give exactly the advertised rays, as often as they are read",
  "Every ray source gives the advertised number of rays, with the advertised heights and angles (regular grids including both ends; Lambertian multiplicities; random ones within bounds and with the advertised "
  "distributions), at the advertised position, none blocked. Reading it again, by loops (even nested), by index (also negative) or as lists of heights and angles gives the same rays. "
  "Indices out of range and one random ray more than the maximum are refused.",
  "inputs histories", "all parameters of the sources and all orders of reading", "Tests check sizes and a few rays of default sources; distributions and repeated readings are not covered.",
  ["raytracing/rays.py", "raytracing/ray.py"], [("regular sources", "raytracing/rays.py:UniformRays, LambertianRays, ObjectRays, LampRays"), ("random sources", "raytracing/rays.py:RandomRays and subclasses"), ("fans", "raytracing/ray.py:fan, fanGroup")],
  ["rays of the sources by loop and by index, yValues, thetaValues, len"],
  "Random parameters of 9 sources and fans; random sources of 2500 rays by a Kolmogorov-Smirnov test at 3e-9. Non-trivial: distinct parameters.",
  ["rays taken one at a time", "rays read by index before the others", "nested loops", "defaults", "distributions judged", "source Uniform", "source Object", "source Lamp", "source Lambertian", "source RandomUniform", "source RandomLambertian", "source Gaussian", "source RandomLamp", "source fan", "source fanGroup"],
  (8000, 80000), "runtime monitoring: explicit enumeration and goodness-of-fit oracles"),

P("C15", "Heights, angles and histograms are always those of the rays that are there",
  "At any time the heights, angles, count and histograms of a list of rays describe exactly the rays that are in it then, whatever was asked or changed before (append, load, load and append, tracing), "
  "with the requested bins: as many as asked, regularly spaced centers, each ray within the limits counted once in its bin. What the caller does with a returned list changes nothing. "
  "Something that is not a ray is refused.",
  "histories", "all histories of changes and questions", "Tests ask once about one list; the values are cached, so only histories can show stale ones.",
  ["raytracing/rays.py"], [("caches", "raytracing/rays.py:Rays.yValues, thetaValues, rayCountHistogram, rayAnglesHistogram, append, load")],
  ["yValues, thetaValues, rayCountHistogram, rayAnglesHistogram, len after each change"],
  "Histories of 2 to 7 changes with 1 to 5 questions after each, 0 to 200 rays. Non-trivial: the list changed and has several rays.",
  ["histograms judged bin by bin", "histograms refused twice", "same bins asked again", "histograms of values that differ by rounding errors", "values read", "loads", "answers changed by the caller"], (24000, 150000), "runtime monitoring: list model over histories"),

P("C16", "What is saved is what is loaded, and bad files change nothing",
  "A group or list of rays that is saved and loaded (replacing or appended, into another object, whatever it held) gives equal elements or rays in the same order, with the same types, labels, apertures, media and "
  "orientation, the same matrix and exactly the same traces; saving modifies nothing, and the loaded objects are independent from the saved ones. Files that are missing, torn, or hold anything "
  "else are refused and leave the object as it was.",
  "inputs histories fault_sequences", "all groups (catalogue lenses included), sources of rays, and damaged files", "Tests save two or three elements.",
  [G, "raytracing/rays.py"], [("groups", G + ":save, load"), ("rays", "raytracing/rays.py:save, load")], ["elements, traces and values before saving and after loading; exceptions"],
  SYS + "catalogue lenses and objectives included, flipped or traced before saving; all kinds of sources of rays; 7 kinds of bad files. Non-trivial: several elements, or rays.",
  ["groups saved", "groups loaded", "groups appended from a file", "saved over another file", "rays saved", "rays loaded", "rays appended from a file", "bad files: torn", "bad files: mixed", "bad files: missing", "bad files: number"],
  (28000, 120000), "runtime monitoring: round trips and damaged files"),

P("C17", "Preferences survive crashes, full disks and concurrent writers",
  "Preferences that were set, changed or deleted are what any other object or process reads afterwards, and a change never undoes a change of another key made by another object before it. The file is at every moment complete: "
  "a crash, kill or full disk at any point of an operation leaves the values of before or after it, with no other key lost, and a concurrent reader only ever sees complete states. Where there is no folder for preferences, they are kept in the current folder.",
  "histories crash_points fault_sequences schedules", "all histories of several objects, every file operation of a write as a crash point, disk full, and concurrent processes and threads",
  "Tests set and read one value in one process.",
  ["raytracing/preferences.py"], [("read, merge, replace", "raytracing/preferences.py:Preferences")], ["the preference file and what new objects read, after histories, interruptions and during concurrent writes"],
  "Histories of 2 to 4 objects with arbitrary JSON values; interruption at the k-th file operation (audit hook) by an exception, by killing the process, or by a file size limit; readers that run while processes and threads "
  "write. Everything in a scratch home folder. Non-trivial: an interruption that happened, or a history with several objects.",
  ["histories", "interrupted operations", "crash points", "changes by another process", "files removed by another process", "no folder for preferences", "concurrent readings", "distinct states seen by a concurrent reader"], (2000, 20000),
  "runtime monitoring: model over histories; crash, kill and disk-full injection at every file operation"),

P("C18", "A Zemax file becomes the lens it describes",
  "Reading a Zemax file, in any encoding, unit or layout of the supported format, gives the surfaces, thicknesses, glasses and diameters it describes in millimeters, and a lens with the matrix, length and vertices "
  "of these surfaces at the design wavelength, through which rays go and are blocked accordingly. Unsupported contents are refused rather than misread.",
  "inputs", "all files of cemented lenses in the supported format", "Tests read the two shipped files.",
  ["raytracing/zemax.py"], [("reader", "raytracing/zemax.py:ZMXReader")], ["the surfaces and matrix built from generated and shipped files; rays through them"],
  "Generated files (of 2 to 30 surfaces, known glasses, flat or curved, units MM, IN, CM, METER or none, UTF-8 or UTF-16, spellings of numbers and glasses), and the shipped ones, against an independent computation. Non-trivial: distinct files.",
  ["files", "rays through", "rays blocked", "shipped files", "files of more than 10 surfaces", "unknown glasses refused"], (24000, 100000), MODEL),

P("C19", "Glasses have their published indices and are found by name and index",
  "Every material gives at every wavelength in its range the index of its published dispersion formula, with the published index and Abbe number at the standard lines, decreasing with wavelength. It is found "
  "by its commercial name in any spelling (case, hyphens) and by index within the tolerance at a wavelength, exactly when it matches, glasses that the user adds as subclasses of Material included. Wavelengths that cannot be in micrometers and unknown names are refused.",
  "inputs", "all materials and wavelengths", "Tests evaluate a few glasses at one wavelength.",
  ["raytracing/materials.py"], [("dispersion", "raytracing/materials.py:Material and subclasses"), ("lookup", "raytracing/materials.py:findByName, findByIndex, all")],
  ["n(wavelength), Vd, findByName, findByIndex, all"],
  "Every material in turn, random wavelengths, against the coefficients of the catalogues in rtmon/data and the published nd and Vd. Non-trivial: distinct materials and wavelengths.",
  ["materials found by index", "wavelengths", "glasses of the user"], (8000, 80000), "runtime monitoring: published data as oracle",
  assumptions=["the dispersion coefficients in rtmon/data/materials.json are those of the manufacturers (checked by nd and Vd)"]),

P("C20", "Catalogue lenses and objectives have the optics of their prescription",
  "Every lens of the catalogues, and every doublet, singlet or objective built from a prescription, has at its design wavelength and any other the matrix, length, diameter, vertices, surfaces, "
  "focal lengths and ray traces of its radii, thicknesses and glasses, flipped or not, and catalogue lenses are within 5 % of the focal lengths given by the maker. Chromatic focal shifts are the "
  "differences of focal length at each wavelength. A lens built with a focal length, back focal length (over 1 % off) or edge thickness (over 5 % off) that is not its own is noted, others are not, and all() lists them all. A ray that leaves the glass is blocked at that surface. Objectives go from focal plane to focal plane with their focal length, and let exactly the rays through that fit in their front aperture, of twice the numerical aperture times the working distance, and in their back aperture.",
  "inputs", "all lenses and objectives, wavelengths, orientations and rays", "Tests check the focal length of a few lenses.",
  ["raytracing/specialtylenses.py", "raytracing/thorlabs.py", "raytracing/eo.py", "raytracing/olympus.py", "raytracing/nikon.py"],
  [("prescriptions", "raytracing/thorlabs.py, eo.py, olympus.py, nikon.py"), ("lenses", "raytracing/specialtylenses.py:CompoundLens, AchromatDoubletLens, SingletLens, Objective")],
  ["matrix, vertices, surfaces, focal lengths, focalShifts and rays of each lens"],
  "Each of the 328 lenses and all objectives in turn, and random prescriptions, at the reference or a random wavelength, flipped or not. Non-trivial: distinct lens, wavelength, orientation.",
  ["flipped lenses", "focal shifts", "lists of lenses", "lenses that are not what is said", "lenses that are what is said", "lenses against the figures of the maker", "objectives", "rays blocked", "rays blocked inside of a lens", "rays of objects through objectives", "rays through objectives", "rays through"], (40000, 200000),
  "runtime monitoring: prescriptions and makers' figures as oracle",
  "Three lenses (ACT508-400-B, -500-B, -1000-B) do not have their focal length: known findings.",
  assumptions=["the prescriptions in rtmon/data/catalogue.json are those of the tree at the start of this work, corrected where they contradicted the maker's figures"]),

P("C21", "Figures show the rays, images, stops and elements that are computed",
  "A figure of an imaging path draws exactly the given rays, each along its trace and only up to where it is blocked (or not at all), the given objects and their images with their "
  "positions, heights and orientations, or the principal and axial rays when no rays are given; elements, apertures, surfaces, focal points, stops and pupils where they are. A laser path "
  "shows the size of its beams everywhere in its spaces, and their waists. The colour of a ray, among those of its source or of the design, tells the height it starts from; the field of view and image size are noted when the object is limited to it. "
  "Displaying or saving changes nothing and can be repeated.",
  "inputs histories", "all systems, ray sources, display options and successive displays",
  "Tests check that display() does not raise; none looks at what is drawn.",
  ["raytracing/figure.py", "raytracing/graphics.py", "raytracing/graphicComponents.py", I, "raytracing/laserpath.py", "raytracing/rays.py"],
  [("lines and arrows", "raytracing/figure.py:rayTraceLines, graphicsOfConjugatePlanes, beamTraceLines, beamWaistAnnotations"), ("elements", "raytracing/graphics.py"),
   ("display", I + ":display; raytracing/laserpath.py:display; raytracing/rays.py:display")],
  ["the visible artists of the matplotlib figures that are shown or saved, in data coordinates; matrices, rays and object height after"],
  "Random imaging paths (one in six with a nested group) with 0 to 3 ray sources (objects at the front or inside, uniform rays, lamps, lists) and display options, displayed once or twice, "
  "laser paths with 1 or 2 beams displayed once or twice, objectives, and histograms of rays; plt.show and savefig are recorded (a few files really are written). Non-trivial: distinct system and options.",
  ["figures read", "rays drawn", "images drawn", "apertures drawn", "surfaces drawn", "boxes drawn", "focal points drawn", "stops labelled", "displayed again", "beam outlines", "waists",
   "objectives drawn", "histograms drawn", "designs after a display", "principal and axial rays drawn", "objects inside of the path", "figures with blocked rays", "entrance pupils drawn", "entrance pupils at infinity", "figures saved",
   "colours of rays", "rays with their own colours", "lamps inside of the path", "fields of view noted", "image sizes noted", "displays with an object", "beams that start in glass"],
  (1600, 16000), "runtime monitoring: artists of the figures against the reference model"),

P("C22", "Importing always works, and warnings follow the chosen mode",
  "Importing the package works and keeps all other preferences, whatever the preferences file holds (absent, corrupt, of any type), even if it can be neither read nor written, and with or without network. The mode is that of the preferences, "
  "expert if RAYTRACING_EXPERT is set, beginner otherwise. Hints are always shown to beginners, never in expert or silent mode; other notes are shown once per place, and none in silent mode; "
  "a mode is kept for the next sessions exactly if asked. PyPI is asked for a newer version only if the last check is more than a day old or its date is unreadable, and the highest newer version is announced.",
  "inputs histories fault_sequences", "all preferences files, environments, network answers, failures of the file system and histories of sessions and changes of mode",
  "Tests import the package once, with the preferences of the developer.",
  ["raytracing/__init__.py", "raytracing/utils.py", "raytracing/preferences.py"],
  [("import", "raytracing/__init__.py"), ("modes and versions", "raytracing/utils.py:beginnerMode, expertMode, silentMode, checkLatestVersion, warningLineFormat")],
  ["what is shown of warnings of each category, those of the package included; requests to PyPI, printed text and preferences on disk after each session"],
  "Sessions in child processes that import the package afresh 1 to 3 times in a scratch home, with random preferences, environment, stubbed answers of PyPI, and real failures (file size limit of 0, folders in place of files, no home), "
  "then change mode up to 3 times. Non-trivial: changes of mode, several sessions or failures.",
  ["imports", "changes of mode", "warnings emitted", "warnings of the package", "version checks", "faults injected"],
  (1200, 12000), "runtime monitoring: model of modes and versions over sessions with injected failures"),
P("C23", "The figure of an element shows its cardinal points",
  "Displaying an element, a catalogue lens, an objective or a group shows its focal points, principal planes and vertices where the paraxial matrix has them, arrows that span its effective, front and back focal lengths with their values, "
  "its surfaces and its apertures at their diameter (for groups: all elements with their focal points, and the stops). Displaying again shows the same, and changes nothing in the element.",
  "inputs histories", "all elements of every kind, catalogue lenses, objectives and groups, flipped or not, in any medium, displayed any number of times",
  "Tests check that displaying some elements raises nothing.",
  ["raytracing/figure.py", "raytracing/graphics.py", "raytracing/graphicComponents.py", "raytracing/matrix.py", "raytracing/matrixgroup.py", "raytracing/specialtylenses.py"],
  [("figure of an element", "raytracing/figure.py:displayGraphics, setGraphicsFromOpticPath"), ("cardinal points", "raytracing/graphics.py:MatrixGraphic, LensGraphic, MatrixGroupGraphic, ObjectiveGraphic"), ("display", "raytracing/matrix.py:Matrix.display")],
  ["artists of the figure: markers, texts, arrows, lines and patches, transformed to data coordinates", "state of the element before and after"],
  "Random elements of 8 kinds, catalogue doublets, singlets and objectives, and random groups, flipped or not, are displayed once or twice and the figure read. Cardinal points come from an independent matrix product. Non-trivial: a focal length.",
  ["figures read", "groups read", "elements with power", "lengths read", "points checked", "displayed again", "outlines of objectives", "outlines of turned objectives"],
  (1600, 16000), "runtime monitoring: reading of figures against computed cardinal points"),
P("C24", "Hiding a group in a figure hides exactly it, and using a figure moves nothing",
  "In an interactive figure, each check box hides and shows exactly the rays, points or images of its group, whatever the order of clicks; two clicks restore the figure. "
  "Zooming, panning or resizing leaves every ray, element, aperture, object and image at its place in the units of the axes, and the heads of arrows keep their size on the screen in a view of the same heights.",
  "inputs histories", "all systems, sets of rays and sequences of clicks, zooms and resizes",
  "No test uses a figure after it is displayed.",
  ["raytracing/figure.py", "raytracing/graphics.py", "raytracing/graphicComponents.py"],
  [("check boxes", "raytracing/figure.py:MplFigure.initAxesHooks, onVisibilityClick"), ("zoom", "raytracing/figure.py:MplFigure.onZoomCallback"), ("groups", "raytracing/figure.py:Figure.graphicGroups, lineGroups")],
  ["visible artists after each click (by click event of the mouse or widget)", "position of all artists in data coordinates after each zoom or resize"],
  "Random systems with 1 to 4 sets of rays, objects or lamps are displayed without blocking, then 2 to 10 random clicks, zooms and resizes are made through events of the canvas. Non-trivial: a click or a zoom.",
  ["figures opened", "boxes", "clicks", "clicks of the mouse", "zooms", "resizes", "heads of arrows after a zoom", "groups judged", "lamps in the groups", "lamps inside of the path in the groups", "figures used"],
  (320, 5000), "runtime monitoring: visibility and position of artists over histories of events"),
P("C25", "The efficiency report counts each ray once, as it is traced",
  "The efficiency report places every input ray once, at its ratio of invariants to the axial and principal rays of the system: Blocked if a ratio is over 1, otherwise Transmitted or Vignetted as tracing says; "
  "percentages, counts, places of blockers and invariants printed or shown are those of these rays, for any object medium, object diameter, emission angle and number of rays, also if none goes through. Without field stop it says so.",
  "inputs", "all imaging paths with an aperture stop and all sets of rays",
  "Tests call the report once or twice and look at nothing.",
  ["raytracing/imagingpath.py"],
  [("efficiency report", "raytracing/imagingpath.py:ImagingPath.reportEfficiency"), ("invariants", "raytracing/imagingpath.py:lagrangeInvariant, opticalInvariant")],
  ["printed text and points and curves of the figure", "each input ray traced again, one by one, by a model"],
  "Random paths, mostly with a field stop, in media of index 1 to 1.5, are reported for random diameters, angles and 1 to 300 rays and the figure and text read. Non-trivial: a report with rays.",
  ["reports read", "values read", "rays traced again", "vignetted rays", "positions of blockers", "reports with vignetting", "systems without field stop"],
  (800, 12000), "runtime monitoring: reading of reports against rays traced by a model"),
P("C26", "Impossible elements, rays and operations are refused without side effects",
  "Matrices whose determinant is not the ratio of indices, apertures that are not positive, anything but light and matrices in a product, trace, group or set of rays, contradictory beams, beams in the wrong medium or in an axicon, "
  "spaces to infinite planes, rays inside of elements and lenses without glass are refused by the documented kind of exception, and leave everything as it was. What is possible is accepted, with the values given.",
  "inputs", "all constructors and operations with possible and impossible arguments",
  "Tests try one impossible argument of some operations.",
  ["raytracing/matrix.py", "raytracing/matrixgroup.py", "raytracing/imagingpath.py", "raytracing/gaussianbeam.py", "raytracing/rays.py", "raytracing/ray.py", "raytracing/specialtylenses.py", "raytracing/materials.py"],
  [("determinant, diameter", "raytracing/matrix.py:Matrix.__init__"), ("products", "raytracing/matrix.py:Matrix.__mul__"), ("groups", "raytracing/matrixgroup.py:append, insert"), ("beams", "raytracing/gaussianbeam.py:__init__"), ("rays", "raytracing/rays.py:Rays.append"), ("fans", "raytracing/ray.py:fan, fanGroup")],
  ["class of the exception or the value returned", "state of every operand before and after", "a ray traced after a refusal"],
  "Random arguments, just or far outside of what is possible or inside of it, of 10 families of constructors and operations. Non-trivial: all.",
  ["refusals", "accepted"],
  (24000, 200000), "runtime monitoring: exceptions and state of operands at each refusal"),
P("C27", "Ready-made systems, axicons and sizes are what their names say",
  "A 4f system or telescope images its front plane at its back, inverted, with magnification f2/f1 and no power, over a length 2(f1+f2), with its lenses f1 from the front and f2 from the back; a 2f system exchanges heights and angles. An axicon bends every ray towards the axis by (n−1)α, "
  "and parallel rays up to a height cross the axis along its focal line; all block rays beyond their diameters, flipped or not, alone, in groups or in longer systems. The largest diameter of a system is that of its largest finite element.",
  "inputs", "all focal lengths, diameters, angles, indices, rays and systems made of these",
  "Tests compare a few focal lengths and rays.",
  ["raytracing/components.py", "raytracing/axicon.py", "raytracing/matrix.py", "raytracing/matrixgroup.py"],
  [("2f and 4f systems", "raytracing/components.py:System4f, System2f"), ("axicon", "raytracing/axicon.py:Axicon.mul_ray, focalLineLength, deviationAngle"), ("sizes", "raytracing/matrixgroup.py:largestDiameter, hasFiniteApertureDiameter")],
  ["matrix, vertices, stops, traces and sizes"],
  "Random 2f and 4f systems, axicons, systems of axicons, elements and nested groups, rays through them, and sizes of random systems, against closed forms and a model of the trace. Non-trivial: all.",
  ["2f systems", "4f systems", "aperture stops", "focal lines", "largest diameters", "rays blocked", "rays through", "rays through axicons", "rays through systems with axicons"],
  (24000, 200000), "runtime monitoring: closed forms and model of traces"),

P("C28", "Equal means the same optics, copies are independent, descriptions tell values",
  "Elements made alike are equal, whatever either was asked, traced or displayed in between, and an element that differs by any value, however little, is not; rays are equal if their heights and angles are. Copies of elements, groups and rays are equal, trace alike, "
  "and changes of a copy leave the original alone. An element has the label it is given. A ray keeps its wavelength, and goes straight between elements. Descriptions of matrices, rays and beams show their values, rounded.",
  "inputs histories", "all elements, rays, beams, systems and what is done with them",
  "Tests compare some elements that were just built.",
  ["raytracing/matrix.py", "raytracing/matrixgroup.py", "raytracing/ray.py", "raytracing/rays.py", "raytracing/gaussianbeam.py", "raytracing/graphics.py"],
  [("equality and text", "raytracing/matrix.py:Matrix.__eq__, __str__"), ("rays", "raytracing/ray.py:Ray.__eq__, at, __str__"), ("beams", "raytracing/gaussianbeam.py:GaussianBeam.__str__")],
  ["results of == and !=, text of str(), elements and traces of originals after changes of copies"],
  "Random elements built twice and used (traced, asked, drawn), with one value changed by 1e-12 to 50 %, random rays, beams, and deep or pickled copies of systems and rays that are then edited. Non-trivial: all.",
  ["equal elements", "different elements", "large values", "descriptions", "rays compared", "beams described", "copies"],
  (24000, 200000), "runtime monitoring: comparison of elements, copies and descriptions with what they were made of"),
P("C29", "The command line runs exactly the examples asked for",
  "python -m raytracing -e runs the examples with these numbers, in this order (all of them without -e), each between the beginning and the end of its output, after its source, which is the code that runs, and gives them a picture of it to be displayed. "
  "A number that is not in the list is refused, and nothing runs. -l lists every example with the number that runs it and its title, -c prints one graph of subclasses for the rays and one for the matrices, those of the user included; neither runs anything.",
  "inputs", "all lists of numbers, valid or not, and all options; classes made by the user",
  "Tests run the functions of the examples, never the command line.",
  ["raytracing/__main__.py", "raytracing/examples/__init__.py", "raytracing/utils.py"],
  [("command line", "raytracing/__main__.py"), ("examples", "raytracing/examples/__init__.py:short"), ("hierarchy", "raytracing/utils.py:printClassHierarchy")],
  ["calls of the functions of the examples with their arguments, the standard output in order, the exit code, processes started, figures shown"],
  "Random lists of numbers (repeated, with spaces or zeros, out of range, not numbers), all ways to write the options, random subclasses, and real runs of the examples with their figures. Non-trivial: numbers are run or refused.",
  ["examples run", "pictures of sources", "all examples", "numbers refused", "lists", "hierarchies", "sources compared", "real examples"],
  (300, 3000), "runtime monitoring: recorded calls and output of the command line against the files of the examples"),

P("C30", "The transfer matrix up to a distance is that of what stands before it",
  "The transfer matrix of a system up to a distance from its front edge is the ordered product of the elements that end there or before, and of the first part of the space, thick lens or slab in which the distance falls: "
  "its ABCD terms, length and indices (the last one inside of the glass) are those of this product, and rays and their positions go through it accordingly. At 0 it holds the elements at the front edge only, at the end and beyond it is "
  "the whole matrix. Inside of a matrix of which nothing but the ABCD terms is known it is refused with TypeError. Asking changes nothing, and the answers follow later changes of the group. "
  "The part of a path after a place inside of a space is the rest of this space, in its medium, and what follows; the part before it, taken backwards, is the beginning of this space and what precedes, turned around and in reverse order, mirrors excepted: light comes back to their same face.",
  "inputs histories", "all systems and distances, at the edges, inside of elements, and beyond the end",
  "Tests ask for it inside of a few spaces; invariants, stops, pupils and fields are all computed from it at any position.",
  [G, M], [("cut of the list of elements", G + ":transferMatrix"), ("inside of an element", M + ":transferMatrix of Space, ThickLens, DielectricSlab")],
  ["A, B, C, D, L, frontIndex, backIndex of transferMatrix(upTo); rays multiplied by it; exceptions"],
  SYS + "5 distances each. Non-trivial: at least two elements and a distance inside of the system.",
  ["matrices up to a distance", "matrices that end inside of a space", "matrices that end inside of a thick", "matrices that end inside of a slab", "matrices that end between elements",
   "refused inside of an opaque element", "questions after an insertion", "rays up to a distance", "rests of a path", "rests of a path, backwards", "rests of a path with mirrors"],
  (24000, 200000), MODEL),

P("C31", "Figures of cavities, compound lenses and axicons show what they are",
  "The figure of a laser cavity shows the edges and waists of its mode where a beam that repeats itself has them, and no beam when there is none. That of a lens made of several glasses shows each glass between its two "
  "surfaces, with their curvature, place and diameter, also after the lens is turned around, as its list of surfaces does; that of an axicon shows a cone with its angle, its tip and flat face. The title is the label, and the comments (a text or an image) "
  "given to any display are shown below the figure. The chromatic aberrations are the focal length at each wavelength minus the design focal length. Displaying changes nothing.",
  "inputs histories", "all cavities, cemented lenses, axicons, comments and lists of wavelengths",
  "Displays are only called, not read, by tests; most of these never are.",
  ["raytracing/lasercavity.py", "raytracing/specialtylenses.py", "raytracing/axicon.py", "raytracing/graphicComponents.py", "raytracing/figure.py"],
  [("cavity display", "raytracing/lasercavity.py:display"), ("surfaces", "raytracing/specialtylenses.py:CompoundLens.forwardSurfaces"), ("cones and glasses", "raytracing/graphicComponents.py:SurfacePair"),
   ("comments", "raytracing/figure.py:MplFigure.create"), ("focal shifts", "raytracing/specialtylenses.py:CompoundLens.focalShifts")],
  ["lines, arrows, patches, texts, images and titles of the figures of matplotlib; surfaces; focalShifts"],
  "Random cavities with or without way back, cemented lenses of 1 to 4 glasses turned around 0 to 3 times, axicons alone or in paths, text and image comments, all catalogue lenses with random wavelengths. Non-trivial: something is judged in a figure.",
  ["modes drawn", "waists of modes", "cavities without mode drawn", "cavities displayed again", "glasses drawn", "compound lenses drawn", "compound lenses drawn, turned around", "axicons drawn", "axicons turned around",
   "comments shown", "images shown as comments", "titles read", "chromatic aberrations drawn"],
  (700, 7000), "runtime monitoring: reference model against the artists of the figures"),
P("C32", "Labels of a figure name what is there, and make way for each other in view",
  "In the figure of a path, AS and FS are named at the stops, each focal point of each element once (those of one place together) and each element that has a label, and nothing else (in that of a laser path only elements). "
  "A label that overlaps no other is at the place it names; two that overlap are moved apart sideways, equally, so that they no longer do; a label that was in view stays in view, at its height. "
  "After zooming, panning and coming back the labels are where they were: they depend on the view, not on what was seen before.",
  "inputs histories", "all paths, labels, font sizes and sequences of views",
  "No test reads the labels of a figure in use.",
  ["raytracing/figure.py", "raytracing/graphics.py", "raytracing/graphicComponents.py"],
  [("overlaps", "raytracing/figure.py:MplFigure.fixLabelOverlaps"), ("in view", "raytracing/figure.py:MplFigure.translateLabel"), ("places", "raytracing/graphicComponents.py:Label.resetPosition"),
   ("names", "raytracing/figure.py:Figure.pointsOfInterest, stopsLabels")],
  ["texts of the figure: position and rendered box after each view, against the stops, the focal points of the model and the labels given"],
  "Random, often crowded, systems with labelled elements are displayed in several font sizes, then seen in 1 to 4 other views and back. Non-trivial: labels were judged.",
  ["labels of stops", "labels of focal points", "labels of several focal points", "labels of elements", "views judged", "views with overlaps", "views without overlaps", "pairs of labels moved apart", "labels kept in view",
   "labels kept in view close to an edge", "views restored", "zooms", "laser paths"],
  (400, 4000), "runtime monitoring: artists of the figures over histories of views"),
P("C33", "A figure is drawn in the style, colours and sizes it was asked for",
  "design() sets one or several of the colours of rays, lamps, objects, images and fields of view, of whether arrows are filled, of the default object being shown, of only its axial rays being drawn, and of the size of texts; the others stay. "
  "What is given last holds for every figure displayed or saved from then on, until it is changed or a style is chosen: 'default' (as documented), 'publication' (in greys) or 'presentation' (in colours); another name is refused. "
  "Texts are fontScale times as large as at 1. A path that was not changed has the default style, whatever was done to others.",
  "inputs histories", "all sequences of designs and displays",
  "Tests call design() for single parameters, without looking at the figure.",
  ["raytracing/figure.py", "raytracing/imagingpath.py", "raytracing/graphics.py"],
  [("design", "raytracing/figure.py:Figure.design"), ("kept", "raytracing/imagingpath.py:ImagingPath.display"), ("colours", "raytracing/figure.py:Figure.rayTraceLines")],
  ["colours and fills of the rays and arrows of the figure, sizes of its texts, against what was asked for last"],
  "Random sequences of 2 to 7 designs and displays (objects, lamps, bundles, the default object, the field of view; some saved) on one path, then one display of another path. Non-trivial: figures were read.",
  ["designs", "styles chosen", "unknown styles refused", "figures displayed", "figures saved", "figures read", "rays", "arrows", "filled arrows", "empty arrows", "default objects", "default objects hidden", "only axial rays",
   "fields of view", "sizes of texts", "scales of texts", "figures in publication style", "figures in presentation style", "figures in an own style", "other paths", "shades of grey", "laser figures"],
  (400, 4000), "runtime monitoring: artists of the figures over histories of designs"),

P("C34", "The lens viewer offers each lens of the catalogues and shows the one chosen",
  "OpticalComponentViewer (lensViewer.py) offers every lens of Thorlabs and of Edmund Optics once, named after its label and its effective focal length. "
  "Choosing one, whatever was chosen before, and in any viewer, shows its name, and a figure of that lens: its glasses, focal points, principal planes, vertices and lengths.",
  "inputs histories", "all sequences of choices among the 328 lenses",
  "No test loads the viewer (it needs a screen).",
  ["raytracing/lensViewer.py", "raytracing/graphicComponents.py", "raytracing/graphics.py", "raytracing/specialtylenses.py"],
  [("offered", "raytracing/lensViewer.py:OpticalComponentViewer.build_lens_dict"), ("chosen", "raytracing/lensViewer.py:OpticalComponentViewer.selection_changed")],
  ["the menu recorded by stand-ins for tkinter, and the artists of the figure on the screen, against a lens of its own"],
  "One viewer per case, with 1 to 6 choices among all of its lenses, some chosen again. The modules of tkinter (not installed here) are replaced by stand-ins that record menus, texts and canvases. Non-trivial: a lens was chosen.",
  ["lenses offered", "lenses chosen", "chosen again", "several choices", "figures read", "glasses drawn", "points checked", "lengths read"],
  (120, 1500), "runtime monitoring: menus, texts and artists recorded over histories of choices"),
]

FINDINGS = [
    {"property": "C04", "key": "exit-aperture", "status": "known",
     "what": "a ray that leaves an element of finite length (space, thick lens, slab, matrix with L>0) beyond its aperture, having entered inside of it, is not blocked: "
             "Space(2, diameter=5).trace(Ray(2, 2)) leaves at y=6, unblocked"},
    {"property": "C10", "key": "explicit-vertices", "status": "known",
     "what": "flipOrientation of a generic Matrix with a physical length and explicit vertices exchanges frontVertex and backVertex instead of mirroring them: "
             "Matrix(1,0,-0.1,1, physicalLength=10, frontVertex=2, backVertex=9) becomes 9, 2 instead of 1, 8 (pinned by testMatrixFlipOrientation)"},
    {"property": "C20", "key": "design-focal:ACT508_400_B", "status": "known", "what": "ACT508_400_B (and _ML): R1 with N-SF5 gives f=326 mm, the maker says 400 mm"},
    {"property": "C20", "key": "design-focal:ACT508_500_B", "status": "known", "what": "ACT508_500_B (and _ML): R1 with N-SF5 gives f=395 mm, the maker says 500 mm"},
    {"property": "C20", "key": "design-focal:ACT508_1000_B", "status": "known", "what": "ACT508_1000_B (and _ML): R1 with N-SF5 gives f=782 mm, the maker says 1000 mm"},
]

_FIXED = """
C21 62591b0 the figure of a laser path drew the beam as a straight line across the spaces of a nested group (LaserPath([Space(10), MatrixGroup([Lens(f=50), Space(100)])])): the waist in there was not shown
C19 4b9e344 a Material defined by the user (as the message of findByName tells to do) made findByIndex() and findByName() raise KeyError
C30 bfafe63 subPath() refused a place inside of a space to a focus or a conjugate, and objects there could not be displayed
C20 08f9853 the edge thickness of a lens with a flat face was nan: one that is not its own was not noted
C33 b143688 design(onlyAxialRay=True) was ignored
C32 f15e7e1 a label that overlaps two others was moved twice from its first place, possibly out of the view
C32 eeab1c2 the labels of an interactive figure overlapped until it was zoomed
C31 1e0baae a compound lens without power could not be displayed
C31 5a305c2 the comments given to LaserCavity.display() were not shown
C15 42c9f14 histograms of rays at the same place, rounding errors aside (the rays at the image of a point), raised ValueError
C15 11cb56b a histogram asked again after it was refused returned the one before it
C30 529451d transferMatrix(upTo) at the front edge of a nested group left out the zero-length elements there (as a plain list of the same elements does not)
C29 0bc97c5 the command line ran other examples, or only some, when a number is not in the list
C21 bc675f1 displaying the entrance pupil of a telecentric system raised ValueError
C07 965a972 fields of view over two thirds of maxHeight were reported as infinite
C27 778243c the largest diameter of a Lens was 4, or half its diameter once displayed
C27 06db703 the largest diameter of a group counted groups without aperture inside of it
C28 3755d71 rays lost their wavelength when they were traced
C28 20c9934 the description of a GaussianBeam had its wavelength in pm, called nm
C28 1bf0e14 displaying a Lens changed it (it was not equal to the same lens any more, and kept the height of the rays)
C25 66e2f1c the efficiency report failed when no ray goes through, and left out single rays
C25 665fb91 the efficiency report ignored the index of refraction of the object in its invariants
C23 36b36ee displaying a Space or an element without vertices failed
C22 4357a35 import failed when the preferences could not be read or written (read-only folder, full disk)
C22 3c6c646 the latest version is the highest one, not the last one listed by PyPI
C22 7992322 import failed when the date of the last version check could not be read (as when it had no microseconds)
C22 e8b60ec hints of the beginner mode were shown in expert mode (and not always in beginner mode)
C21 2c5b57b displaying axial rays with a single colour (as those of a lamp) raised IndexError
C11 94d89ab transferMatrix(upTo) at the front edge of a Matrix with a length raised TypeError
C21 dd38b8a forget the waists of the previous beams when a LaserPath is displayed again
C21 346172f draw the apertures of an Objective at their place and diameter
C21 e6f8e18 draw the box of a Matrix where the element is
C21 b20a57c display every object of a plane, and images when objects are hidden
C21 b2e22a3 keep the design of an ImagingPath, and its design() function, after a display
C20 5a96610 lenses with an integer focal length could not be built at some wavelengths
C20 f6cb979 typos in the radii of AC127-050-AB-ML and AC127-075-AB-ML
C19 7d75b57 N_SF6 had the dispersion of SF1, and the catalogue lenses made of it the wrong focal lengths
C18 fc3b104 a Zemax file without UNIT raised AttributeError instead of being in mm
C17 59ed2ef two threads saving preferences shared the same temporary file
C16 a2522d3 Rays.save of random rays saved only those already generated
C15 eb25c47 changing the returned yValues, thetaValues or histograms changed the cached ones
C02 6fd8db6 a loop over a MatrixGroup inside another one ended the first one
C14 747cea0 reading rays (yValues, another loop) inside a loop over Rays ended that loop
C10 e944fd4 flipOrientation of a group flipped twice an element that is there twice
C09 2e1c8b2 ToFocus and fromFocusToFocus missed the focus of an element whose vertices are not its edges
C05 b77766c traceManyThroughInParallel lost the rays of a generator when it fell back to serial code
C18 1d812c7 ZMXReader read dimensions in centimeters or meters as millimeters
C18 0b72d77 ZMXReader raised IndexError for a lens designed at 0.55 microns only
C20 67c24e2 focalShifts() raised TypeError for the Edmund Optics lenses with known materials
C20 c1cc561 focalShifts() returned 1000 copies of a list of wavelengths, and TypeError without a design focal length
C17 145e201 all preferences were lost when writing them failed or was interrupted
C17 07aba85 setting a preference undid those set or removed by another Preferences(), and a deleted one came back
C17 556f7ec Preferences() created with initial values raised AttributeError
C13 fb10ade the modes of a cavity that starts in a medium could not be propagated in the cavity and had the wrong size
C13 b697df2 appendElementsInReverse() left the matrix of the cavity as it was and did not reverse the elements
C12 5b40a14 the waist of a GaussianBeam ignored the index of refraction
C14 2b83c5a UniformRays with a single height (M=1) was at height 0, even outside of [yMin, yMax]
C15 c1f7cf1 Rays() was empty when created from an iterator
C15 ea366b5 the histograms, yValues and thetaValues of Rays were those before load()
C02 162b98e editing a MatrixGroup misplaced elements (negative or open slices), lost them when one was refused and kept the matrix of a group that became empty
C20 fac8cae the surfaces of a flipped mirror, interface, thick lens or compound lens were those of the unflipped element
C10 720d2b3 the vertices of a flipped ThickLens were exchanged, giving wrong front and back focal lengths
C10 701ef08 flipOrientation() of a Matrix left A and D as they were
C08 c88552a backwardConjugate() and entrancePupil() failed when the front index is not 1
C08 f83f117 ToConjugate, ToFocus and fromFocusToFocus() ignored the front and back indices
C06 54008ca NA() raised AttributeError for a path without aperture stop
C07 72f13e4 fieldStop() raised TypeError when the only aperture is at an image of the object
C06 3c7d009 ImagingPath.apertureStop() ignored the apertures after one that blocked its test ray
C03 341d235 Matrix.trace() marked the caller's ray as blocked and gave the entrance of a finite-length element the aperture of the previous element
C20 4daee87 shadowed duplicate definitions of catalogue lenses and of E_BAF11 hid the right ones
C03 b2aa07b MatrixGroup.trace() returned the trace of an earlier state of the group
C11 a9c2450 rounding errors could leave out of transferMatrix(upTo) the elements at that position
C11 aaf3609 the partial transfer matrix of a group started in index 1 instead of the index in front of the group
C03 bdc83e7 an axicon deviated rays that were already blocked, in place
"""
FIXED = []
for line in _FIXED.strip().splitlines():
    prop, commit, what = line.split(" ", 2)
    FIXED.append({"property": prop, "key": "fixed:" + commit, "status": "fixed", "what": "fixed: property=%s %s %s" % (prop, commit, what)})
