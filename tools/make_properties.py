#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays valid and in step)."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "The first surface on a ray's path, and only that one, handles the ray",
 "In every iteration of a trace, each ray being followed is handed to exactly one surface: the one that, among the surfaces open to that ray, it meets at the smallest positive distance; if it meets none it escapes and has no descendants. A surface at (numerically) zero distance is the one the ray starts from and does not count. The outcome does not depend on the order in which surfaces, objects or sub-assemblies were put into the scene.",
 ["inputs", "configurations"],
 "every scene (any number and nesting of objects), every pattern of intersection distances, every iteration",
 "The engine tests use scenes with one to three surfaces and a handful of rays; they cannot reach all patterns of distances, near-zero hits and surface orders over several iterations.",
 ["tracer/tracer_engine.py", "tracer/surface.py", "tracer/assembly.py"],
 [("nearest-intersection selection over the distance stack", "tracer/tracer_engine.py TracerEngine.intersect_ray"),
  ("selection handed to surfaces, outgoing bundles welded", "tracer/tracer_engine.py TracerEngine.ray_tracer")],
 [("stack", "surface x ray distances of one iteration", "TracerEngine.intersect_ray")],
 ["TracerEngine.tree", "return value of TracerEngine.ray_tracer", "optics callable arguments"])

prop("C02", "A ray's fate does not depend on the other rays in its bundle",
 "Tracing a bundle gives each source ray the same path (the same intersection points, directions, energies, refractive indices and number of descendants at every level) as tracing that ray alone, or within any other bundle, at any position in it, together with duplicates or with none. Only the positions of rays inside the recorded bundles may differ.",
 ["inputs", "configurations"],
 "every scene with deterministic optics, every bundle, every sub-bundle and permutation of it",
 "No test traces the same ray in two different company; vectorised masks, index arithmetic and thresholds that leak between rays are only visible by comparing bundles.",
 ["tracer/tracer_engine.py", "tracer/ray_bundle.py", "tracer/quadric.py", "tracer/flat_surface.py", "tracer/optics_callables.py"],
 [("per-ray masks and index selectors", "tracer/tracer_engine.py, tracer/quadric.py, tracer/flat_surface.py, tracer/sphere_surface.py, tracer/paraboloid.py, tracer/cylinder.py")],
 (), ["TracerEngine.tree"])

prop("C03", "The ray tree records true lineage",
 "Every ray recorded after the source bundle names as its parent the ray of the preceding recorded bundle whose path it continues: it starts at the point where that parent met a surface and carries over the parent's user-defined ray properties. Following parents from any recorded ray leads back to the source ray it came from, and the tree's history query reports exactly that chain. The source bundle itself is the first level of the tree.",
 ["inputs", "histories"],
 "every scene, every bundle, every mix of surviving and discarded rays over any number of iterations",
 "Tests compare a few parent arrays for one or two iterations; nothing exercises discarding at several levels at once, splitting plus culling, extra properties, or the history query.",
 ["tracer/tracer_engine.py", "tracer/trace_tree.py", "tracer/ray_bundle.py"],
 [("parent index fix-up to the full bundle", "tracer/tracer_engine.py ray_tracer"),
  ("weak rays moved to the back of the recorded bundle", "tracer/tracer_engine.py ray_tracer"),
  ("history query", "tracer/trace_tree.py RayTree.ray_history")],
 [("tree", "one ray bundle per iteration", "TracerEngine.tree")],
 ["TracerEngine.tree", "RayTree.ordered_parents", "RayTree.ray_history"])

prop("C04", "Energy cut-off and iteration limit are honoured exactly",
 "A generated ray whose energy is at or below the given minimum is recorded in the tree but never followed; every other generated ray is followed until it escapes, is cut off, or the iteration limit is reached. At most the requested number of bundles is generated, the trace ends as soon as nothing is left to follow, and the returned positions and directions are exactly those of the rays still followed after the last iteration. When the tree is not wanted only the last generated bundle is kept.",
 ["inputs", "configurations"],
 "every scene, bundle, minimum energy (including equality) and iteration limit (including zero)",
 "Tests use one threshold per scene, never equality with the threshold, a zero limit or discarding in several iterations.",
 ["tracer/tracer_engine.py"],
 [("deletion of rays with negligible energy", "tracer/tracer_engine.py ray_tracer"),
  ("iteration loop and early exit", "tracer/tracer_engine.py ray_tracer")],
 (), ["TracerEngine.tree", "return value of TracerEngine.ray_tracer"])

prop("C05", "Objects' ownership and relevancy answers steer the next iteration",
 "A ray that an object has claimed is, in the next iteration only, intersected with that object's surfaces alone; a surface that the object a ray just left declared irrelevant for that ray is skipped for it in the next iteration only; all other surfaces stay open to it. The answers are applied to the very rays they were given for, whatever was split, discarded or reordered in between.",
 ["configurations", "histories"],
 "every assignment of owned/irrelevant flags per ray and surface, over any number of iterations, with rays being split and discarded",
 "Only the all-default object and the one-sided mirror (everything irrelevant) are exercised by tests; ownership is never True in the suite.",
 ["tracer/tracer_engine.py", "tracer/object.py", "tracer/models/one_sided_mirror.py"],
 [("ownership and relevancy masks", "tracer/tracer_engine.py intersect_ray, ray_tracer"),
  ("default policy", "tracer/object.py AssembledObject.own_rays, surfaces_for_next_iteration")],
 (), ["TracerEngine.tree"])

prop("C06", "Tracing is repeatable and leaves scene and source untouched",
 "A trace alters neither the source bundle nor any frame of the scene, and nothing of it influences later traces; repeating it on the same scene, with the same or another engine, before or after other traces and whatever happened to the scene in between and was undone, gives the same result. During a trace every surface is used in the documented order: register, select, outgoing, done.",
 ["histories"],
 "every sequence of traces and scene changes over shared surfaces, geometry managers and optics",
 "Each test traces once with fresh objects, so stale per-surface state, shared caches and mutated inputs never show.",
 ["tracer/tracer_engine.py", "tracer/surface.py", "tracer/flat_surface.py", "tracer/quadric.py", "tracer/geometry_manager.py", "tracer/sphere_surface.py"],
 [("per-iteration state discarded by done()", "tracer/surface.py Surface.done and the done() of each geometry manager")],
 (), ["TracerEngine.tree", "RayBundle getters of the source", "geometry-manager calls"])

prop("C07", "Energy is conserved at every interaction",
 "At every interaction the energies of the rays leaving a surface and the energy it absorbs add up to the energy of the incoming ray: an absorbing reflector keeps exactly its absorptivity's share, a refracting surface loses nothing and splits it into the reflected and the refracted ray, the back of a one-sided reflector keeps everything. No energy ever becomes negative or undefined, so over a whole trace what was emitted equals what was absorbed, escaped, was discarded or is still travelling.",
 ["inputs", "histories"],
 "every optics manager, every incidence angle (including normal incidence, grazing and total reflection), whole traces",
 "Tests check single interactions at a few angles; they never add up a trace and never hit the rounding edge at normal incidence.",
 ["tracer/optics_callables.py", "tracer/optics.py", "tracer/tracer_engine.py"],
 [("energy computation of the optics managers", "tracer/optics_callables.py"), ("Fresnel reflectance", "tracer/optics.py fresnel")],
 (), ["TracerEngine.tree", "get_all_hits of the receivers"])

prop("C08", "Every surface sits where its chain of frames puts it",
 "After any sequence of building and moving operations on surfaces, objects and (nested) assemblies, each surface and boundary acts in the world at the composition of the current frames of all its containers, outermost first, with its own. This includes moves of inner parts after their containers were moved, parts added after a move, and parts given at construction.",
 ["histories", "configurations"],
 "every history of construction, addition and set-location/rotation/transform calls at any level of any nesting",
 "Tests do one or two moves on fixed two-level scenes (and most of those fail in this environment).",
 ["tracer/has_frame.py", "tracer/assembly.py", "tracer/object.py", "tracer/surface.py", "tracer/boundary_shape.py"],
 [("recursive propagation of transforms", "tracer/assembly.py transform_children, tracer/object.py transform_children"),
  ("temporary (world) frame", "tracer/has_frame.py transform_frame")],
 [("world frame", "frame used for tracing", "HasFrame")],
 ["frame handed to the geometry manager", "Surface.global_to_local", "BoundaryShape.in_bounds", "Surface.mesh"])

prop("C09", "Frame getters and setters agree, and setting never shares storage",
 "For every located thing, the location, rotation and transform it reports always describe the same frame, namely the last one set through any of the three setters, with the parts that were not set left as they were. Setting a frame never changes the caller's array or the frame of anything else, and later changes to the caller's array do not change the frame; a location or rotation of the wrong shape is refused and changes nothing.",
 ["histories", "inputs"],
 "every sequence of setter calls, with arrays shared between calls and of any numeric type",
 "Tests set a frame once from a fresh float array; aliasing and partial updates after a full transform are never looked at.",
 ["tracer/has_frame.py", "tracer/assembly.py", "tracer/surface.py"],
 [("synchronised transform, location and rotation", "tracer/has_frame.py HasFrame")],
 (), ["get_location, get_rotation, get_transform"])

prop("C10", "Ray-bundle operations keep every ray's properties together",
 "Selecting, inheriting, deleting, adding and concatenating bundles give a bundle whose every ray carries, in every property (basic or user-defined, scalar or vector), the values of the ray it was taken from or the values explicitly given, in the order asked for; counts agree across properties. The bundles operated on are left unchanged, and selective reads and writes touch exactly the selected rays.",
 ["histories", "inputs"],
 "every sequence of bundle operations, every selector (empty, repeated, reordered, boolean, slice), every set of properties",
 "Tests use constant-valued arrays, so misaligned rays would go unseen, and single operations only.",
 ["tracer/ray_bundle.py"],
 [("property registry with generated getters and setters", "tracer/ray_bundle.py RayBundle._create_property"),
  ("inherit, __add__, delete_rays, concatenate_rays", "tracer/ray_bundle.py")],
 (), ["RayBundle getters"])

prop("C11", "Flat surfaces report the true intersection",
 "For an infinite plane, rectangle, disc or triangle in any position and orientation, the distance reported for a ray is that of the point where the ray meets the surface inside its outline, and infinity if it meets it outside, behind its start or not at all; the reported points are the corresponding points in world coordinates for exactly the rays selected, in that order.",
 ["inputs"],
 "every plate size, every rigid frame, every ray (either side, oblique, parallel, behind), any selection, any reuse of the surface",
 "Tests cover a few rays on two or three frames per class.",
 ["tracer/flat_surface.py", "tracer/triangular_face.py"],
 [("ray/plane intersection", "tracer/flat_surface.py FlatGeometryManager.find_intersections"),
  ("outline tests", "tracer/flat_surface.py RectPlateGM, RoundPlateGM; tracer/triangular_face.py TriangularFace")],
 (), ["Surface.register_incoming", "GeometryManager.get_intersection_points_global"])

prop("C12", "Curved surfaces report the first intersection inside their bounds",
 "For spheres, hemispheres, spheres cut by a bounding volume, infinite and finite cylinders, paraboloids, parabolic dishes and hexagonal dishes in any position and orientation, the distance reported for a ray is the smallest positive one at which the ray meets the bounded surface, and infinity if there is none; the reported points are the corresponding points in world coordinates for exactly the rays selected, in that order.",
 ["inputs"],
 "every radius, aperture, bounding volume and rigid frame; every ray (from inside, outside, through the opening, axis-parallel, two valid hits, only the second valid, missing)",
 "Tests use one or two sizes and frames per class and rarely a ray with two candidate hits of which only one is inside the bounds.",
 ["tracer/quadric.py", "tracer/sphere_surface.py", "tracer/cylinder.py", "tracer/paraboloid.py", "tracer/boundary_shape.py"],
 [("quadratic solution and choice of hit", "tracer/quadric.py QuadricGM.find_intersections and the _select_coords of the subclasses")],
 (), ["Surface.register_incoming", "GeometryManager.get_intersection_points_global"])

prop("C13", "Normals are unit, perpendicular to the surface and face the ray",
 "At every selected intersection point of every kind of surface, in any frame, the reported normal has unit length, is perpendicular to the surface at that point, and points to the side the ray came from.",
 ["inputs"],
 "every surface kind, frame, ray and selection (subset, order)",
 "Tests check normals at a handful of points, mostly in unrotated frames and mostly for rays from one side.",
 ["tracer/flat_surface.py", "tracer/sphere_surface.py", "tracer/paraboloid.py", "tracer/cylinder.py", "tracer/quadric.py"],
 [("normal computation", "get_normals / _normals of the geometry managers")],
 (), ["GeometryManager.get_normals"])

prop("C14", "Specular reflection obeys the mirror law",
 "A ray reflected by any specular optics leaves from the intersection point in the unit direction obtained by reversing the component of its direction along the surface normal and keeping the rest, whichever side it came from, in the same medium.",
 ["inputs"],
 "every incidence direction and side, every surface kind and frame, every specular optics manager",
 "Tests use a few symmetric directions on flat plates.",
 ["tracer/optics.py", "tracer/optics_callables.py"],
 [("reflection law", "tracer/optics.py reflections"), ("specular optics managers", "tracer/optics_callables.py Reflective, AbsorberReflector, RefractiveHomogenous")],
 (), ["TracerEngine.tree", "optics.reflections"])

prop("C15", "Refraction obeys Snell's and Fresnel's laws, with total reflection",
 "At a border between two media, a ray beyond the critical angle is totally reflected with all its energy; any other ray is split into a reflected ray and a refracted one, whose direction is unit, lies in the plane of incidence on the far side and satisfies Snell's law, which travels in the other of the two media from then on, and whose share of the energy is given by the Fresnel equations for unpolarised light. The reflected ray stays in its medium. This holds ray by ray for bundles mixing media, sides and angles.",
 ["inputs"],
 "every pair of indices, every incidence angle and side, every mix of rays in one bundle",
 "Tests check two or three angles; none mixes totally reflected and refracted rays travelling in different media.",
 ["tracer/optics.py", "tracer/optics_callables.py"],
 [("Snell's law in vector form", "tracer/optics.py refractions"), ("Fresnel reflectance", "tracer/optics.py fresnel"),
  ("choice of the second index", "tracer/optics_callables.py RefractiveHomogenous.toggle_ref_idx"),
  ("dispersion formula", "tracer/optics.py refr_idx_hartmann")],
 (), ["TracerEngine.tree", "optics.refractions", "optics.fresnel"])

prop("C16", "Receivers account for every hit exactly once",
 "A receiver remembers, since its last reset, one entry per ray that reached its surface in any iteration of any trace: the energy it absorbed from that ray and the world position of the hit, in matching order; resetting forgets all of them and nothing else does. What it reports never depends on whether or how often it was asked before.",
 ["histories"],
 "every sequence of traces, resets and queries, over specular and diffuse receivers with any absorptivity",
 "Tests do one interaction and one query.",
 ["tracer/optics_callables.py", "tracer/models/homogenized_local_receiver.py"],
 [("hit bookkeeping", "tracer/optics_callables.py AbsorptionAccountant")],
 (), ["AbsorptionAccountant.get_all_hits"])

prop("C17", "Diffuse reflection stays on the lit side and follows the cosine law",
 "A ray reflected by a diffuse surface leaves from the intersection point in a unit direction within the half-space the ray came from, with the non-absorbed share of its energy, independently for each ray. Over many reflections the directions are distributed about the surface normal in proportion to the cosine of the angle from it, at any orientation of the surface.",
 ["inputs", "configurations"],
 "every surface kind and orientation, either side, any number of rays (including one)",
 "Tests check energies and one flat horizontal plate.",
 ["tracer/optics_callables.py", "tracer/sources.py", "tracer/spatial_geometry.py"],
 [("random direction about the normal", "tracer/optics_callables.py LambertianReflector"), ("rotation to a given Z axis", "tracer/spatial_geometry.py rotation_to_z")],
 (), ["optics callable result", "TracerEngine.tree"])

prop("C18", "Sources emit the bundle they describe",
 "A solar-disk source emits the requested number of rays, each starting on the disc of the given centre and radius perpendicular to the given direction, uniformly over its area, in a unit direction within the given angle of it, spread as a pillbox sun; if a flux is given the rays share equally the flux times the disc's area. A square source emits parallel rays in the given direction from a regular square grid in the plane perpendicular to the direction; the grid starts at minus the given half-width from the given centre along both of its axes, its spacing is twice the half-width over the root of the number of rays, and it has as many rows and columns as that root rounded up.",
 ["inputs"],
 "every direction (including the axes), centre, radius, angle, flux and number of rays",
 "Tests use two directions, and never an off-axis frame with an off-origin centre, non-square counts or single rays.",
 ["tracer/sources.py", "tracer/spatial_geometry.py"],
 [("sampling", "tracer/sources.py"), ("rotation to the source direction", "tracer/spatial_geometry.py rotation_to_z")],
 (), ["RayBundle getters of the returned bundle"])

prop("C19", "One-sided mirrors, receivers and homogenizers act as specified",
 "A one-sided rectangular mirror reflects, with the given absorptivity, only rays arriving on its front and swallows those arriving on its back; a one-sided receiver does the same with a receiver in front and an opaque back. A rectangular homogenizer consists of four such mirrors facing inward that exactly wall the given aperture up to the given height, so that a ray entering it travels between the walls, losing the given share per bounce, until it leaves through an end.",
 ["inputs", "configurations"],
 "every size, aspect ratio, absorptivity and placement, rays from either side and into any wall",
 "Tests use a unit-square case or one fixed size, and one ray per wall.",
 ["tracer/models/one_sided_mirror.py", "tracer/models/homogenizer.py", "tracer/optics_callables.py"],
 [("directional absorber", "tracer/optics_callables.py AbsorberReflector"), ("wall placement", "tracer/models/homogenizer.py rect_homogenizer")],
 (), ["TracerEngine.tree", "get_all_hits"])

prop("C20", "Aimed heliostats send the sun to the target",
 "After aiming a heliostat field at the sun, every heliostat stays at its position and a ray from the sun hitting its centre is reflected to the target point on the vertical through the origin at the aim height current at that aiming, with the non-absorbed share of its energy, while its back reflects nothing; this holds for repeated aiming and changed aim heights, and leaves the caller's positions unchanged. Before the first aiming every heliostat faces straight down, and a radial-stagger layout puts alternate rows at alternate angles within the given limits.",
 ["inputs", "histories"],
 "every field layout, sun position above the horizon, aim height and sequence of aimings",
 "The only aiming test fails in this environment; layouts are checked by radius only.",
 ["tracer/models/heliostat_field.py"],
 [("aiming", "tracer/models/heliostat_field.py HeliostatField.aim_to_sun"), ("layout", "tracer/models/heliostat_field.py radial_stagger")],
 (), ["TracerEngine.tree", "get_transform of the heliostats"])

prop("C21", "A spherical lens is the closed body its dimensions describe",
 "A spherical lens consists of front and back faces of the given signed curvatures (or planes), trimmed to the given diameter, and of the cylindrical edge that closes the gap between them whenever there is one, so that no ray crosses from outside to inside without meeting a refracting face. The lens reports the focal length of the thick-lens equation, its faces are the given depth apart on the axis, and, for curved faces, it is placed so that the back focal point lies the focal length below the origin.",
 ["inputs", "configurations"],
 "every sign combination of curvatures, planar faces, depth, diameter and index, in any frame",
 "Tests cover three fixed lenses and one or two rays each; the planar-front lens is not covered at all.",
 ["tracer/models/spherical_lens.py", "tracer/sphere_surface.py", "tracer/cylinder.py", "tracer/boundary_shape.py"],
 [("placement and trimming of the faces", "tracer/models/spherical_lens.py SphericalLens")],
 (), ["TracerEngine.tree", "SphericalLens.focal_length"])

prop("C22", "A triangulated surface is exactly the set of its triangles",
 "For any vertex list and face list, a ray meets a triangulated surface where it first meets one of the listed triangles, placed in the object's frame, and nowhere else; degenerate triangles contribute nothing and do not affect the others. All faces share the given optics.",
 ["inputs", "configurations"],
 "every vertex and face list (including degenerate and collinear faces at any position), every frame",
 "Tests use two small solids without degenerate faces, untransformed.",
 ["tracer/models/triangulated_surface.py", "tracer/triangular_face.py"],
 [("local frames per face", "tracer/models/triangulated_surface.py TriangulatedSurface"), ("barycentric outline test", "tracer/triangular_face.py")],
 (), ["TracerEngine.tree", "get_surfaces"])

prop("C23", "Concentrator models are laid out as specified and map all received energy",
 "A dish concentrator (round or hexagonal) consists of the reflector at its origin with the given focal length and aperture, a one-sided receiver of the given sides at the given distance facing it, and a homogenizer of the given depth and efficiency in front of the receiver, all moving together. Its flux map, for any number of bins, sums to the energy the receiver absorbed since it was last reset (the assembly not having moved since), each hit's energy lying in the bin of its position on the receiver, and its reported dimensions are those requested; standard dimensions satisfy the published relations.",
 ["inputs", "histories"],
 "every size, aspect ratio, placement and bin count; any number of traces",
 "Tests use one dish size, a square receiver, five rays, and never the flux map.",
 ["tracer/models/homogenized_local_receiver.py", "tracer/models/tau_minidish.py", "tracer/models/PETAL_dish.py"],
 [("layout", "tracer/models/homogenized_local_receiver.py"), ("flux map", "tracer/models/homogenized_local_receiver.py histogram_hits")],
 (), ["TracerEngine.tree", "histogram_hits", "get_external_dimensions"])

prop("C24", "Meshes lie on the surface they represent",
 "For every surface kind that offers a mesh, at any resolution and in any frame, every mesh point lies on the surface in world coordinates, within its outline to less than one mesh step, and the mesh spans the whole surface up to one mesh step.",
 ["inputs"],
 "every mesh-capable surface kind, size, resolution and frame",
 "Tests compare one mesh per class, in local coordinates only.",
 ["tracer/surface.py", "tracer/flat_surface.py", "tracer/sphere_surface.py", "tracer/cylinder.py", "tracer/paraboloid.py", "tracer/triangular_face.py"],
 [("local mesh and its transform", "tracer/surface.py Surface.mesh and the mesh() of each geometry manager")],
 (), ["Surface.mesh"])

prop("C25", "Bounding volumes contain exactly their points",
 "A bounding sphere, cylinder or half-space, placed by its own frame within its container's current world frame, contains exactly the points inside its geometric volume, for any number of points. The rectangle a bounding sphere reports for a cutting plane is the bounding square, in that plane's coordinates, of the circle in which the plane cuts the sphere.",
 ["inputs", "histories"],
 "every size, frame, container frame, point set and cutting plane",
 "Tests use three points per shape and unmoved spheres only.",
 ["tracer/boundary_shape.py", "tracer/sphere_surface.py"],
 [("containment tests", "tracer/boundary_shape.py in_bounds"), ("plane cut", "tracer/boundary_shape.py BoundarySphere.bounding_rect_for_plane")],
 (), ["BoundaryShape.in_bounds", "bounding_rect_for_plane"])

prop("C26", "Rotation and transform helpers produce the rigid motions they name",
 "Every rotation helper returns a proper rotation by the given angle, right-handed about the given axis (X, Y, Z or any unit vector); the rotate-to-direction helper maps the Z axis to the given direction, keeps the new X axis horizontal, and treats each of several directions independently; the transform helpers combine such a rotation with the given translation.",
 ["inputs"],
 "every axis, angle, direction (including along and near plus or minus Z) and translation",
 "Tests rotate one or two vectors.",
 ["tracer/spatial_geometry.py"],
 [("rotation helpers", "tracer/spatial_geometry.py")],
 (), ["returned matrices"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
