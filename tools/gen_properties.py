#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os

def P(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a}

PERSP, ORTHO, EXT = "src/intrinsics_perspective.rs", "src/intrinsics_orthographic.rs", "src/extrinsics.rs"
CAM, LIB, RAYB, RAYI = "src/camera.rs", "src/lib.rs", "src/ray_bundle_types.rs", "src/ray_intersection.rs"
LIN, UTIL = "src/linearize.rs", "src/intrinsic_test_utils.rs"

props = [
P("C01", "Perspective projection is the pinhole model",
  "For every perspective camera and every point off the camera's principal plane, the projected pixel is u=(fx*X+skew*Y+cx*Z)/Z, v=(fy*Y+cy*Z)/Z where (X,Y,Z) is the point in the camera frame, to within the rounding of the scalar type (f32 and f64). This holds for camera-frame projection and for full world-to-pixel projection, for any sign of focal lengths, skew and depth (points behind the camera included). The parameters a camera was built from are the ones it reports.",
  ["inputs", "configurations"], "all poses, all intrinsic parameters (any sign, nonzero focal lengths), all finite points with nonzero depth, f32 and f64",
  "the tests use two or three fixed cameras with positive focal lengths, tiny skew, and points in front of the camera, and only compare the model with its own inverse",
  [PERSP, CAM, EXT], [("camera_to_pixel with cached 3x4 matrix", PERSP), ("world_to_pixel = camera_to_pixel after world_to_camera", CAM)],
  ["IntrinsicParametersPerspective::camera_to_pixel", "Camera::world_to_pixel", "IntrinsicParametersPerspective::{fx,fy,skew,cx,cy,params}"],
  [("cache_p", "3x4 intrinsic matrix derived from params", PERSP)]),
P("C02", "Orthographic projection is the scaled parallel model",
  "For every orthographic camera and every finite point, the projected pixel is u=sx*X+cx, v=sy*Y+cy where (X,Y,Z) is the point in the camera frame, to within rounding; depth never influences the pixel. This holds for camera-frame projection and for full world-to-pixel projection, for any nonzero scales of any sign.",
  ["inputs", "configurations"], "all poses, all orthographic parameters, all finite points at any depth, f32 and f64",
  "one fixed orthographic camera is exercised, on points produced by its own inverse at a single depth",
  [ORTHO, CAM, EXT], [("camera_to_pixel", ORTHO), ("world_to_pixel", CAM)],
  ["IntrinsicParametersOrthographic::camera_to_pixel", "Camera::world_to_pixel"]),
P("C03", "World/camera frame conversion is the pose's rigid motion, and invertible",
  "Converting world points to camera coordinates yields R*(p-c) for the pose's rotation R and camera centre c, and converting camera points to world coordinates yields R^T*p+c, to within rounding relative to |p|+|c|. Consequently the two conversions are mutually inverse, preserve distances and handedness, and take the camera centre to and from the origin.",
  ["inputs"], "all rotations (including identity, half turns and both signs of the quaternion), all centres and points, any number of points, f32 and f64",
  "the tests use one pose and four axis points",
  [EXT], [("world_to_camera / camera_to_world through cached isometries", EXT)],
  ["ExtrinsicParameters::world_to_camera", "ExtrinsicParameters::camera_to_world"],
  [("ExtrinsicsCache", "rotation matrices and isometries derived from rotation and centre", EXT)]),
P("C04", "All views of a pose describe the same rigid motion",
  "For every pose, however it was built (rotation and centre, isometry, or view), the reported centre, isometry, 3x4 matrix, rotation and translation all describe one and the same rigid motion, rebuilding from the reported isometry gives the same pose, and building from an isometry reports that isometry back. The forward, up and right vectors are unit length, mutually orthogonal, and are exactly the world directions of the camera frame's +Z, -Y and +X axes, to within rounding that does not grow with the distance of the camera from the origin.",
  ["inputs"], "all rotations, all camera centres (from zero to very far from the origin), f32 and f64",
  "the tests compare rotation and centre for one pose near the origin; forward/up/right are never tested",
  [EXT], [("from_rotation_and_camcenter fills the cache", EXT), ("from_pose", EXT), ("lookdir", EXT)],
  ["ExtrinsicParameters::{camcenter,pose,matrix,rotation,translation,forward,up,right}", "ExtrinsicParameters::from_pose"]),
P("C05", "A camera built from a view looks where it was told, upright",
  "A pose built from a camera centre, a look-at point and an up vector (look direction nonzero and not parallel to up) has exactly that centre, looks along the unit vector from the centre to the look-at point, keeps its up vector in the plane of look direction and given up vector and on the given up side, and has right = forward x up, to within rounding. So the look-at point projects to the principal point of any camera with that pose, whatever the camera's position and the length of the look vector.",
  ["inputs"], "all centres, look-at points and up vectors in general position, including axis-aligned, oblique and nearly degenerate views, f32 and f64",
  "three views are tested, all with up=+z, one of them only against a recorded rotation",
  [EXT], [("from_view composes look_at_lh with a half turn about the view direction", EXT)],
  ["ExtrinsicParameters::from_view"]),
P("C06", "Pixel to ray is the exact inverse of projection at every distance",
  "The ray obtained from a pixel starts at the camera centre along the pinhole direction (perspective, with positive depth component 1 in the camera frame) or at the pixel's position on the camera plane along the viewing direction (orthographic), in the camera frame and in the world frame alike. Every point of that ray, at any nonzero distance of either sign, projects back to the same pixel to within rounding.",
  ["inputs", "configurations"], "all cameras of both models, all pixels (also far outside any image and exactly at the principal point), all distances, any number of pixels, f32 and f64",
  "the tests reproject only point_on_ray (one distance) for one camera of each model on a 5-pixel grid",
  [PERSP, ORTHO, CAM, RAYB], [("pixel_to_camera", PERSP), ("pixel_to_camera", ORTHO), ("pixel_to_world", CAM)],
  ["IntrinsicParameters::pixel_to_camera", "Camera::pixel_to_world", "RayBundle::point_on_ray_at_distance"]),
P("C07", "Every point lies on the ray of the pixel it projects to",
  "For every camera of either model and every point with nonzero depth, the world-frame ray of the point's pixel passes through the point: the distance from the point to the ray's line is zero to within rounding. For perspective cameras the point is on the forward half of the ray exactly when its depth is positive.",
  ["inputs"], "all cameras of both models, all points with nonzero depth, f32 and f64",
  "no test goes point to pixel to ray; the tests only go pixel to point to pixel",
  [CAM, PERSP, ORTHO, RAYB], [("pixel_to_world / world_to_pixel", CAM)],
  ["Camera::world_to_pixel", "Camera::pixel_to_world"]),
P("C08", "Ray bundle accessors describe the same rays",
  "For every ray bundle of either kind, with any shared origin or direction, ray i is the line from centers()[i] along directions()[i]; point_on_ray gives a point on the positive half of ray i, and point_on_ray_at_distance(d) gives the point on ray i at signed Euclidean distance d from its origin, for every d of either sign and every direction length. A one-ray bundle converts to a single ray with the same origin and direction, and bundles made by the zero-origin and plus-z constructors have exactly those shared values.",
  ["inputs"], "all bundles (shared origin and shared direction, any values, any number of rays), all distances, f32 and f64",
  "two bundles of two rays with positive distances and unit shared direction are tested; centers, directions and to_single_ray are not",
  [LIB, RAYB], [("Bundle impls for SharedOriginRayBundle and SharedDirectionRayBundle", RAYB)],
  ["RayBundle::{centers,directions,to_single_ray,point_on_ray,point_on_ray_at_distance}", "Bundle trait methods"]),
P("C09", "Transforming a ray bundle moves each ray rigidly",
  "Moving a ray bundle of either kind by any rigid motion (into the world frame through a camera pose, or by an explicit isometry) moves every ray's origin as a point and every ray's direction as a vector, keeping bundle kind, ray count, order and direction lengths. So a point at distance d on the moved ray is the moved point at distance d on the original ray, whatever the bundle's shared origin or direction was.",
  ["inputs"], "all bundles (not only those with zero origin or +z direction), all isometries and compositions of them, all distances, f32 and f64",
  "rays are only ever transformed from the zero-origin or plus-z bundles of one pose",
  [RAYB, EXT, LIB], [("Bundle::to_pose", RAYB), ("ray_camera_to_world", EXT)],
  ["ExtrinsicParameters::ray_camera_to_world", "Bundle::to_pose"]),
P("C10", "Results per row do not depend on batch size, order or storage",
  "Every bulk operation (frame conversion, projection, back-projection, ray evaluation, ray transformation) treats each row on its own: the result for a row is the same, to within rounding, as for that row alone, whatever the number and order of the other rows. It is also the same for statically sized, dynamically sized, strided-view and transposed-view inputs; the output has exactly as many rows as the input, including zero.",
  ["inputs", "configurations"], "all row counts from zero to thousands, all permutations and splits of a batch, all nalgebra storages, both camera models, f32 and f64",
  "tests use owned matrices of fixed small shape and never compare a batch with its parts",
  [EXT, PERSP, ORTHO, RAYB, CAM], [("per-row loops in every bulk operation", EXT + ", " + PERSP + ", " + ORTHO + ", " + RAYB)],
  ["world_to_camera", "camera_to_world", "camera_to_pixel", "pixel_to_camera", "world_to_pixel", "pixel_to_world", "point_on_ray", "point_on_ray_at_distance", "ray_camera_to_world"]),
P("C11", "The camera matrix models the camera",
  "For every perspective camera, multiplying the 3x4 camera matrix with a homogeneous world point and dividing by the third component gives the pixel the camera projects that point to, for every point off the principal plane. The matrix is always finite, and its (2,3) entry is 1 unless the world origin lies on the camera's principal plane. Building a camera from that matrix gives back a camera with the same projection, and the same intrinsics, rotation and centre if both focal lengths are positive.",
  ["inputs"], "all perspective cameras, including cameras at or level with the world origin and with negative focal lengths, all points, f32 and f64",
  "one camera and two points are tested; cameras whose principal plane contains the origin are not",
  [CAM, PERSP, EXT], [("as_camera_matrix", CAM), ("from_perspective_matrix", CAM)],
  ["Camera::as_camera_matrix", "Camera::from_perspective_matrix"]),
P("C12", "Any projection matrix decomposes into an equivalent camera",
  "For every finite 3x4 matrix with a well-conditioned left 3x3 block, at any nonzero scale of either sign, camera construction succeeds and the camera projects every point exactly where the matrix does. The result has positive focal lengths, a proper rotation (orthonormal, determinant +1), and the matrix's null vector as camera centre; matrices that differ only by a nonzero factor give the same camera.",
  ["inputs"], "all nonsingular projection matrices (also those with negative determinant or mirrored axes, such as DLT results), all scales, all points, f32 and f64",
  "two matrices are decomposed in tests, one of them only printed and not checked",
  [CAM], [("rq_decomposition with sign fixing", CAM), ("pmat2cam_center", CAM)],
  ["Camera::from_perspective_matrix"]),
P("C13", "Intrinsic matrices are accepted exactly when they are pinhole matrices",
  "A 3x4 matrix is accepted as normalised intrinsic matrix exactly when its entries at (0,3),(1,0),(1,3),(2,0),(2,1),(2,3) are zero and its (2,2) entry is one (to within the scalar type's epsilon) and it describes a camera, that is its five parameters are finite and both focal lengths nonzero; any other matrix, including any with NaN or infinite entries, is rejected as invalid input. An accepted matrix yields precisely the focal lengths, skew and principal point it contains.",
  ["inputs"], "all 3x4 matrices: valid ones, each structural entry perturbed by any amount of either sign alone or in combination, and non-finite entries, f32 and f64",
  "seven matrices with one entry set to 1.1 are tested; deviations that are small, negative, combined or non-finite are not",
  [PERSP], [("from_normalized_3x4_matrix", PERSP)],
  ["IntrinsicParametersPerspective::from_normalized_3x4_matrix"]),
P("C14", "The Jacobian is the derivative of the projection",
  "For every perspective camera and every world point off its principal plane, the linearisation at that point equals the exact 2x3 derivative of the world-to-pixel projection at that point, to within rounding. It is finite there for every camera, also for cameras at the world origin or with negative focal lengths, and one prepared linearisation can be evaluated at any number of points.",
  ["inputs"], "all perspective cameras, all points with nonzero depth, f32 and f64",
  "one camera, one point and one offset direction (z) are tested, to 1e-4",
  [LIN, CAM], [("JacobianPerspectiveCache::new and linearize_at", LIN)],
  ["linearize::JacobianPerspectiveCache::linearize_at"]),
P("C15", "Best intersection of rays is the least-squares point",
  "For two or more rays, the returned point minimises the sum of squared distances to the lines carrying the rays: it is the unique minimiser to within rounding relative to the coordinates' magnitude and the rays' conditioning whenever the directions differ by more than about a milliradian (f64; correspondingly wider in f32), and in particular the common point if the rays meet. For exactly parallel rays it is one of the minimisers.",
  ["inputs"], "all sets of two to hundreds of rays with arbitrary origins, direction lengths and signs: meeting, skew, nearly parallel, parallel, repeated, far from the origin, f32 and f64",
  "two meeting rays with well separated directions are tested, near the origin; skew rays, more than two rays and f32 are not",
  [RAYI], [("normal equations solved by pseudo-inverse", RAYI)],
  ["best_intersection_of_rays"]),
P("C16", "Best intersection depends only on the lines, and needs two of them",
  "The best intersection does not depend on the order of the rays, on where on its line each ray starts, or on the length or sign of its direction; it follows a rigid motion or uniform scaling of all rays; duplicating the whole set leaves it unchanged. With fewer than two rays it reports that at least two are needed, with two or more it never does, and no input (parallel, repeated, zero or non-finite rays included) makes it panic or run forever.",
  ["inputs"], "all ray sets and all permutations, reparametrisations, rigid motions and repetitions of them; degenerate and non-finite sets for the totality part, f32 and f64",
  "no test varies the parametrisation or order of rays, or calls it with fewer than two rays or degenerate rays",
  [RAYI], [("direction normalisation and symmetric accumulation", RAYI), ("length check", RAYI)],
  ["best_intersection_of_rays"]),
P("C17", "Projecting into several cameras and intersecting recovers the point",
  "If a world point is projected by two or more cameras (of either model, in any mix) that see it from sufficiently different directions, intersecting the back-projected rays returns the original point, and it reprojects to the same pixel in every one of the cameras, to within rounding and the geometry's conditioning.",
  ["inputs", "configurations"], "all sets of two to ten cameras in general position with mixed models, parameters and poses, all points with nonzero depth in each, f32 and f64",
  "one pair of perspective cameras and one point are tested",
  [CAM, RAYI, RAYB, EXT], [("world_to_pixel, pixel_to_world, to_single_ray, best_intersection_of_rays", CAM + ", " + RAYI)],
  ["best_intersection_of_rays", "Camera::pixel_to_world", "RayBundle::to_single_ray"]),
P("C18", "Serialisation round trips preserve value and behaviour",
  "Every camera, intrinsic model, pose and ray bundle, serialised and deserialised in any lossless serde format (map-like or sequence-like, text or binary, fields in any order), alone or embedded in the user's own types (as element, option, flattened fields or enum content), compares equal to the original and behaves identically: same projections, rays, matrices and poses, bit for bit. Only the defining parameters are serialised.",
  ["inputs", "histories"], "all values of all serialisable types with finite numbers, all formats, repeated round trips, f32 and f64",
  "one value per type is round-tripped through JSON and compared with ==; behaviour after deserialisation is not checked",
  [EXT, PERSP, ORTHO, CAM, LIB, RAYB], [("hand-written Deserialize rebuilding the caches", EXT + ", " + PERSP)],
  ["serde::Serialize / Deserialize of all public types"],
  [("cache, cache_p", "skipped in serialisation, rebuilt on deserialisation", EXT + ", " + PERSP)]),
P("C19", "Malformed serialised data is rejected, never accepted or panicking",
  "Deserialising any data that is not a complete, well-formed camera, intrinsic model, pose or ray bundle (missing, repeated, unknown or wrongly typed fields of cameras' own hand-written formats, truncated sequences, wrong array lengths, arbitrary bytes) returns an error and never panics. Whatever is accepted is a fully usable value: it re-serialises to the same parameters and projects like a camera built from those parameters.",
  ["inputs", "fault_sequences"], "all JSON, CBOR and bincode documents: valid ones, structurally mutated ones and arbitrary bytes",
  "no test deserialises anything but a well-formed document",
  [EXT, PERSP, ORTHO, CAM, LIB], [("visit_map / visit_seq", EXT + ", " + PERSP)],
  ["serde::Deserialize of ExtrinsicParameters, IntrinsicParametersPerspective, Camera and others"]),
P("C20", "User-defined camera models compose with poses like the built-in ones",
  "For every implementation of the intrinsic-parameters trait, linear or not, with either ray bundle kind, a camera projects a world point to exactly what the model returns for the point in camera coordinates, and back-projects pixels to exactly the model's camera rays moved into the world frame, calling the model with all rows in order and modifying nothing in between. The camera hands back the intrinsics and extrinsics it was built from unchanged.",
  ["inputs", "configurations"], "all models (generated nonlinear distorting models with both bundle kinds), poses, pixel and point batches, f32 and f64",
  "tests never use a model other than the two built-in ones",
  [CAM, LIB], [("Camera::world_to_pixel / pixel_to_world composition", CAM)],
  ["Camera::{new,intrinsics,extrinsics,world_to_pixel,pixel_to_world}"]),
P("C21", "Fixed-size operations never allocate on the heap",
  "With statically sized inputs, building cameras, projecting, back-projecting, converting frames, evaluating and transforming rays, computing and decomposing camera matrices, and linearising perform no heap allocation whatsoever, for any input values, in every feature configuration.",
  ["inputs", "configurations"], "all statically sized inputs of one to dozens of rows, all cameras, f32 and f64",
  "no test observes allocation; CI only compiles the no_std configurations",
  [EXT, PERSP, ORTHO, CAM, RAYB, LIN], [("static nalgebra storage throughout; heap only in ray_intersection", LIB)],
  ["global allocator"]),
P("C22", "Results do not depend on the enabled cargo features",
  "The crate builds in every feature configuration its dependencies support, and for the same inputs every operation available in a feature configuration (none, alloc, std, serde-serialize, and their combinations; debug or release build) returns the same results, to within rounding, as in every other configuration that offers it. Without the feature std it links into a program that has no standard library, and without alloc into one that has no heap.",
  ["configurations", "inputs"], "all feature configurations of the crate, all inputs of all operations, f32 and f64",
  "the tests only run with std enabled; the no_std configurations are compiled but never executed",
  [LIB, EXT, PERSP, ORTHO, CAM, RAYB, RAYI, LIN], [("feature gates in lib.rs", LIB)],
  ["whole public API in each configuration"]),
P("C23", "Mixing coordinate frames or shapes is a compile-time error",
  "Every program that passes points or rays to an operation expecting the other coordinate frame, mixes rays of different frames in one intersection, confuses pixels with points, or passes batches where a single point or ray is required is rejected by the compiler, and every program that respects frames and shapes is accepted. Every operation's result carries the frame the operation documents.",
  ["programs"], "all straight-line client programs over the public API, well-typed and with a frame, kind or shape error at any position",
  "tests are programs that compile; a signature that became too permissive is invisible to them",
  [LIB, EXT, CAM, RAYI, LIN], [("phantom coordinate-system parameter on Points, RayBundle, Ray", LIB), ("signatures naming WorldFrame / CameraFrame", EXT + ", " + CAM + ", " + LIN)],
  ["rustc's verdict on generated client programs"]),
P("C24", "The conformance utility accepts exactly the round-tripping models",
  "The published round-trip utility for camera models returns normally when every pixel of its sampling grid (border to size minus border, exclusive, by step, in both directions) round-trips within the given tolerance, and panics when any grid pixel, in either component, comes back farther off than the tolerance or as NaN. Pixels outside the grid have no influence.",
  ["inputs", "fault_sequences"], "all models (the built-in ones with any parameters, and models with a fault injected at any single pixel and component), all grids and tolerances",
  "the utility is only ever run on two correct models",
  [UTIL], [("generate_uv_raw and roundtrip_intrinsics", UTIL)],
  ["intrinsic_test_utils::roundtrip_intrinsics"]),
P("C25", "Cameras are pure values: no call influences another",
  "Every result depends only on the parameters of the objects involved and the arguments: in any sequence of calls on any number of cameras, poses and linearisations, including ones derived from others by cloning, serialisation, pose or matrix round trips, and from any number of threads at once, each call returns what it would return on a freshly built object with the same parameters.",
  ["histories", "schedules"], "all call sequences over several live cameras and derived objects, repeated, reordered and concurrent",
  "each test makes a few calls on one or two objects in one thread",
  [CAM, EXT, PERSP, LIN, RAYI], [("immutable structs with eagerly computed caches, no interior mutability", EXT + ", " + PERSP + ", " + LIN)],
  ["whole public API over call histories"]),
P("C26", "Clone, equality and debug output reflect exactly the parameters",
  "A clone of any camera, intrinsic model, parameter set, pose or ray bundle equals the original and behaves identically; two of them are equal exactly when all their defining parameters are equal (a unit quaternion and its negative being the same rotation), so a change to any single parameter makes them unequal. Debug output shows every defining parameter and nothing of the internal caches, and every error displays the same text as its debug form.",
  ["inputs"], "all values of all public types, each single parameter changed by any amount",
  "equality is only used on equal values and debug output is never inspected",
  [EXT, PERSP, ORTHO, CAM, LIB, RAYB], [("derived and hand-written Clone, PartialEq, Debug", EXT + ", " + PERSP + ", " + LIB)],
  ["Clone, PartialEq, Debug and Display of public types"]),
P("C27", "The scalar type is a free choice and sets the precision",
  "The library works with any scalar type that implements nalgebra's RealField, not only f32 and f64: types that are not Copy, types of higher precision, types that carry derivatives. Frame conversion, projection, back-projection, points on rays, pose accessors, camera matrices and their decomposition, linearisation and serialisation follow the same formulas as for f64 to within the rounding of that scalar type, so with a double-double scalar they are accurate to about 30 digits and with a differentiating scalar the derivatives of every result with respect to all parameters and arguments are exact to rounding: nothing is computed in a narrower type on the way. Poses built from a view and ray intersections are accurate to at least f64's precision (the view also in its derivatives).",
  ["inputs", "configurations"], "all RealField scalar types (checked with a heap-allocated non-Copy one, a double-double and a dual number), all cameras, poses, points, pixels, views and rays",
  "only f32 and f64 are ever instantiated, and a computation in f64 on the way cannot be seen with those",
  [CAM, EXT, PERSP, ORTHO, LIN, RAYB, LIB], [("all types and functions are generic over R: RealField", LIB), ("conversions of constants with nalgebra::convert", EXT + ", " + CAM)],
  ["whole public API instantiated with other scalar types"]),
P("C28", "Undefined stays undefined, and nothing panics",
  "No operation on cameras, poses, matrices, points, pixels or rays panics or hangs, whatever bit patterns its inputs consist of, and bulk operations always return all rows. Where a result is undefined it never looks like an ordinary one: a NaN coordinate, pixel, distance, parameter or matrix entry that the result depends on, a point exactly in a perspective camera's principal plane, back-projection through a zero focal length, a ray or view without a direction, or an all-zero projection matrix gives an error or non-finite values in the components that depend on it.",
  ["inputs"], "all bit patterns for every argument of every operation; every single undefined element in otherwise regular input, at any row of any batch, f32 and f64",
  "no test passes anything but ordinary numbers",
  [CAM, EXT, PERSP, ORTHO, LIN, RAYB, RAYI], [("IEEE propagation through straight-line formulas; explicit errors in matrix import and SVD", CAM + ", " + PERSP + ", " + RAYI)],
  ["whole public API"]),
P("C29", "The stored form is fixed and made of the documented parameters",
  "What is written for a camera, intrinsic model, pose or ray bundle depends on its parameters only and has a fixed meaning, so that data stored by one build is read by another: a camera is {intrinsics, extrinsics}, an intrinsic model {params: {fx, fy, skew, cx, cy}} or {params: {sx, sy, cx, cy}}, a pose {rquat: [i, j, k, w], camcenter: [x, y, z]}, a ray bundle {coords: unit, data: its rows, bundle_type: {center} or {direction}}; formats without names hold the same numbers in that order. A document composed by hand after this scheme reads as the value with those parameters, bit for bit, and every value is written as its document.",
  ["inputs", "configurations"], "all values of all serialisable types with finite numbers, f32 and f64, self-describing and positional formats, fields in any order",
  "tests only read back what the same build wrote, so a change made on both sides passes unnoticed",
  [EXT, PERSP, ORTHO, CAM, LIB, RAYB], [("derived Serialize on field names, hand-written Deserialize with FIELDS", EXT + ", " + PERSP)],
  ["serde::Serialize / Deserialize of all public types"]),
P("C30", "Cost grows only in proportion to the number of rows",
  "Every bulk operation (frame conversion, projection, back-projection, points on rays, ray transformation, centres and directions, comparison, printing, storing, best intersection of rays, the round-trip utility) takes arithmetic, copies, comparisons, processor time and heap memory at most in proportion to the number of its points, pixels, rays or grid pixels. Building, decomposing or printing a pose, camera or matrix and evaluating a linearisation take a bounded amount. The factor does not depend on the values: not on their magnitude or order, on repeated, zero or non-finite rows, nor on the size of the image a grid is spread over; reading a document takes memory in proportion to its length, whatever sizes it announces.",
  ["inputs"], "all operations, any values, 0 to hundreds of thousands of rows, any scalar type",
  "tests use three to a few thousand rows once, where even quadratic work takes no time",
  [EXT, PERSP, ORTHO, CAM, LIB, RAYB, RAYI], [("loops over rows in every bulk operation; SVD with an iteration limit", EXT + ", " + RAYB + ", " + RAYI)],
  ["whole public API"]),
P("C31", "Units are free choices",
  "The unit in which lengths are measured, and the units and sense in which the two pixel axes are counted, are free choices. Multiplying all lengths (points, camera centre, isometry, viewing target, distances, ray origins; inversely the scales of an orthographic camera) by a power of two, and everything measured along a pixel axis (pixels, focal length or scale, skew, image centre) by another, negative ones included, multiplies every result (frames, poses, views, pixels, rays, points on rays, camera matrices, Jacobians, best intersections) by the matching factor and changes no digit of it. Multiplying a projection matrix by a power of two, or the direction of a ray by one of either sign, changes nothing.",
  ["inputs"], "all cameras of both models, poses, views, points, pixels and rays; all powers of two as long as no intermediate product overflows or underflows; f32 and f64",
  "tests use one scale: focal lengths of 100 pixels and scenes of a few units",
  [EXT, PERSP, ORTHO, CAM, LIN, RAYB, RAYI], [("homogeneous formulas without absolute thresholds", EXT + ", " + PERSP + ", " + CAM + ", " + LIN + ", " + RAYI)],
  ["whole public API"]),
P("C32", "No axis, side or origin is special",
  "Which axes the world and the image are described in is a free choice. A scene seen in a mirror (any of the world axes and the same axes of the camera reversed, with the image axes, skew and image centre following) gives the mirrored result of every operation (frame conversion, pose accessors, projection, rays of pixels and points on them, Jacobians, camera matrices), to the last digit. A scene expressed in another world frame (everything turned and moved together, the viewing target and up vector of a view included) gives the same pixels, and rays and axes turned and moved along, within rounding; moving the image origin shifts pixels and changes no ray.",
  ["inputs"], "all cameras of both models, poses, views, points and pixels, all eight mirrors, all rigid motions, all image origins; f32 and f64",
  "tests use one world frame with z up, cameras on one side of the origin and images with positive coordinates",
  [EXT, PERSP, ORTHO, CAM, LIN, RAYB], [("formulas without a preferred direction or sign", EXT + ", " + PERSP + ", " + ORTHO + ", " + CAM + ", " + LIN)],
  ["from_view", "world_to_camera", "camera_to_world", "world_to_pixel", "pixel_to_world", "linearize_at", "as_camera_matrix"]),
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
