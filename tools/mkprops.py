#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})

p("C01", "The image does not depend on thread count or worker scheduling",
  "With a deterministic sampler, rendering the same scene writes the same image for every number of worker threads (one or more) and for every interleaving of the workers, up to the rounding caused by the order in which one pixel's floating-point contributions are added. Every such render terminates: no deadlock, no livelock.",
  ["schedules", "configurations"], "all interleavings of 1..3 workers at their synchronisation operations, over films of several tiles whose filter footprints overlap",
  "No existing test starts a render at all; a unit test would see one OS schedule and cannot enumerate the orders in which workers take tiles and merge results.",
  ["src/integrator.rs", "src/film.rs", "src/sampler_halton.rs"],
  [("tile iterator behind a mutex", "src/integrator.rs: render"), ("tile merge under the film mutex", "src/film.rs: merge_film_tile"), ("per-worker sampler clones", "src/integrator.rs: render")],
  [("film_tile_iter", "work queue shared by the workers", "src/integrator.rs"), ("pixels", "accumulated colour and weight per pixel", "src/film.rs")],
  ["bytes of the image file written by a render"])

p("C02", "Every pixel sample is taken once and counted once",
  "For every film resolution, filter radius, number of worker threads and schedule, the work units handed to workers cover the film's sample region without gaps or overlaps, and each pixel position in it is sampled exactly the requested number of times. Each sample taken contributes exactly once to the image.",
  ["schedules", "configurations"], "all schedules of 1..3 workers on multi-tile films; all resolutions and filter radii in a bounded grid for the partition",
  "test_film_tile_iter looks at three resolutions with filter radius 0 and never renders; lost or duplicated work depends on the schedule and on resolution/radius/tile-size remainders.",
  ["src/integrator.rs", "src/film.rs", "src/bbox.rs"],
  [("tile iteration", "src/film.rs: FilmTileIter"), ("pixel iteration", "src/bbox.rs: BBox2iIter"), ("sample loop", "src/integrator.rs: IntegratorLocal::render")],
  [], ["sequence of pixels and sample numbers requested from the sampler", "image file"])

p("C03", "A failed worker is never mistaken for a finished render",
  "If anything panics inside a worker thread while it renders, at any point and in any schedule, the render call fails (it does not return normally) and the output file is neither created nor changed. The remaining workers never make the call hang.",
  ["schedules", "fault_sequences"], "a panic injected at every pixel visit and at every call a worker makes into the scene, crossed with every interleaving of 1..3 workers",
  "No test injects failures into workers; which locks are held and which workers are alive at the moment of the failure depends on the schedule.",
  ["src/integrator.rs", "src/film.rs"],
  [("join().unwrap() before the file is opened", "src/integrator.rs: render"), ("mutex poisoning", "src/film.rs: merge_film_tile")],
  [], ["outcome of the render call", "output file after the call"])

p("C04", "The output file is exactly the finished image, or the failure is reported",
  "Whenever a render returns normally, output.ppm consists of exactly one plain PPM image: header with the film's width and height and maximum 255, then width*height RGB lines in row order, and nothing else, whatever the file contained before. If any I/O operation fails the error is reported (the call does not return normally); short or interrupted writes never corrupt the file.",
  ["fault_sequences", "histories", "configurations"], "all prior file states x all positions of an injected open/write/flush error, short write or interruption, for films whose image is smaller and larger than the I/O buffer",
  "No test writes an image. Stale tails, swallowed flush errors and short writes need a particular prior file or a fault at a particular write.",
  ["src/integrator.rs", "src/film.rs"],
  [("opening output.ppm", "src/integrator.rs: render"), ("write_image_ppm", "src/film.rs")],
  [], ["bytes of output.ppm", "outcome of the render call"])

p("C05", "Each pixel is the filter-weighted mean of the samples that cover it",
  "For every film resolution, filter and set of samples, a pixel's value is the sum of filter weight times sample over the sum of filter weights, taken over exactly the samples whose filter support (the square of the filter's radius around the sample) contains the pixel centre. The weight is the filter's value at the offset of pixel centre and sample, up to the resolution of the precomputed filter table (16 cells per radius and axis), and the result is the same however the samples are distributed over work units.",
  ["inputs", "configurations", "histories"], "all sample positions on a sub-pixel lattice including pixel, tile and image borders, several radii and filter shapes, all pairs of samples, all tile assignments",
  "The only film test counts tiles; it never adds a sample. Wrong footprints show only for samples near tile or image borders or at particular sub-pixel offsets.",
  ["src/film.rs", "src/filter.rs"],
  [("footprint computation", "src/film.rs: FilmTile::add_sample"), ("tile pixel bounds", "src/film.rs: get_film_tile"), ("filter table", "src/film.rs: Film::new"), ("merge", "src/film.rs: merge_film_tile")],
  [("filter_table", "filter sampled on a 16x16 grid of one quadrant", "src/film.rs")], ["pixel values in the written image"])

p("C06", "Written channels are the rounded sRGB encoding of the pixel value",
  "Each written channel is the linear pixel value, sRGB-encoded, clamped to [0, 1], scaled to 255 and rounded to the nearest integer; it is monotone in the pixel value, 0 for black and 255 for anything at or above 1. A pixel that received no sample is written as black, and every written number lies in 0..=255.",
  ["inputs"], "every non-negative f32 pixel value in thorough mode; in quick mode every f32 in a window around each of the 255 code boundaries plus a lattice over all exponents",
  "No test writes an image. Rounding mistakes appear only for values near code boundaries, and there are 255 of them.",
  ["src/film.rs", "src/common.rs"],
  [("gamma_correct", "src/film.rs"), ("quantisation", "src/film.rs: write_image_ppm"), ("clamp", "src/common.rs")],
  [], ["numbers in the written image"])

p("C07", "An invalid radiance sample harms nothing but itself",
  "A sample whose radiance has a NaN, infinite or negative component is left out of the image, and everything else about the image is exactly as if that sample had not been taken. This holds for every combination of invalid samples, components and pixels, and all other samples are still taken.",
  ["inputs", "histories"], "every assignment of valid/NaN/+inf/-inf/negative values to the channels of up to 4 samples spread over pixels with overlapping filter footprints",
  "No test renders; a single NaN poisons a pixel's running sum only in the particular pixel and order in which it arises.",
  ["src/integrator.rs", "src/film.rs"],
  [("validity test before add_sample", "src/integrator.rs: IntegratorLocal::render")],
  [], ["image file", "samples requested from the sampler"])

p("C08", "Halton samples are a pure function of pixel, sample number and dimension",
  "The n-th dimension of the k-th sample of a pixel is the radical inverse, in the n-th prime base, of that sample's index (for the first two dimensions: the part of it below the pixel grid), always lies in [0, 1), and is accurate to single precision for every index and all 1024 supported dimensions. It does not depend on which pixels were visited before, how many dimensions were consumed, or on cloning the sampler.",
  ["histories", "inputs"], "all operation sequences (start pixel, next sample, 1D, 2D, clone) up to a depth against a reference model, plus all 1024 dimensions for index sets including digit-count boundaries of every base",
  "test_radical_inverse_prime checks three values of base 10; it never drives the sampler, and overflow or stale-state errors need large indices or particular visit orders.",
  ["src/sampler_halton.rs", "src/sampler.rs"],
  [("radical_inverse, radical_inverse_prime", "src/sampler_halton.rs"), ("get_index_for_sample", "src/sampler_halton.rs"), ("start_pixel / start_next_sample", "src/sampler_halton.rs")],
  [("offset_for_current_pixel", "cached first index of the current pixel", "src/sampler_halton.rs"), ("dimension", "next dimension to hand out", "src/sampler_halton.rs")],
  ["values returned by the sampler"])

p("C09", "Halton samples of a pixel are the global Halton points inside that pixel",
  "For every film size, the sample indices used by a pixel are exactly those whose first two Halton coordinates, scaled to the sampling grid, fall into that pixel (modulo the 128-pixel period), in increasing order, and the camera sample returned for the pixel lies inside it at that point's position. Hence different pixels of a period never share an index.",
  ["configurations", "inputs"], "all sample-region sizes 1..140 per axis class (every distinct power pair) x all pixels of a period, first samples",
  "No test constructs a Halton sampler. The index map uses a Chinese-remainder inverse whose sign depends on the particular power pair.",
  ["src/sampler_halton.rs"],
  [("multiplicative_inverse", "src/sampler_halton.rs"), ("inverse_radical_inverse", "src/sampler_halton.rs"), ("sample_stride, base_scale, base_exp", "src/sampler_halton.rs: HaltonSampler::new")],
  [], ["camera samples and further dimensions returned by the sampler"])

p("C10", "The random sampler never hands out the same random number twice",
  "For every sequence of operations the random sampler yields exactly the requested number of samples per pixel and only values in [0, 1). No generated random number is used for two different sample dimensions, samples, pixels or worker threads of a render.",
  ["histories", "schedules"], "all operation sequences up to a depth over a recording random source; renders with 1..3 workers under all schedules",
  "No test touches the random sampler; repeated numbers across cloned samplers are invisible to any test that looks at one thread.",
  ["src/sampler_random.rs", "src/integrator.rs"],
  [("get_1d / get_2d", "src/sampler_random.rs"), ("sampler cloning per worker and tile", "src/integrator.rs: render")],
  [], ["random numbers drawn and values returned by the sampler"])

p("C11", "The k-d tree gives the same answers as testing every shape",
  "For every non-empty set of shapes, maximum depth and ray, the closest-hit query returns the hit with the smallest parameter that testing every shape individually would find (with that shape recorded as the one hit), and none exactly if there is none. The any-hit query returns true exactly if some shape is hit within the ray's range.",
  ["inputs", "configurations"], "all multisets of axis intervals / all small lattice scenes of 1..20 shapes per family x all rays with lattice origins and directions (including zero and negative-zero components, origins on split planes, limited ranges) x depth limits",
  "No test builds a k-d tree. Missed hits need particular combinations of split position, ray origin relative to it and node order.",
  ["src/container_kdtree.rs", "src/container_simple.rs", "src/bbox.rs", "src/shape.rs"],
  [("build", "src/container_kdtree.rs"), ("traversal with a to-do stack", "src/container_kdtree.rs: intersect, intersect_p"), ("intersect wrapper recording shape and range", "src/shape.rs")],
  [("nodes", "flattened tree; lower child follows its parent", "src/container_kdtree.rs")], ["results of closest-hit and any-hit queries"])

p("C12", "Box operations are exact on points and conservative on rays",
  "A box reports an intersection with a ray exactly if the closed box and the ray's range share a point (up to a relative tolerance of 1e-6 at the far end), with entry and exit parameters bounding that overlap; zero direction components of either sign and origins on faces are handled. Union, containment, overlap, extent, area and bounding sphere agree with the set of points the box represents.",
  ["inputs"], "all boxes, ray origins, directions and ranges on a small lattice including degenerate boxes and signed zeros, against exact rational arithmetic",
  "test_bbox2i_iter only iterates pixels. NaN and signed-zero cases need a ray exactly on a face plane.",
  ["src/bbox.rs"],
  [("slab test", "src/bbox.rs: BBox3f::intersect"), ("union, point_inside, overlaps, max_extent, bounding_sphere", "src/bbox.rs")],
  [], ["results of the box operations"])

p("C13", "Sphere hits are the nearest in range and lie on the sphere",
  "For every sphere and ray, a hit is reported exactly if the ray meets the sphere at a parameter strictly between 0 and the ray's range, and it is the smallest such parameter; the any-hit query agrees with the closest-hit query. The hit point lies on the ray and on the sphere within the reported error bound, and inside the sphere's bounding box up to rounding.",
  ["inputs"], "all lattice spheres, ray origins (outside, inside, beyond), directions of several scales and range limits, against exact integer arithmetic; configurations within a rounding margin of tangency or of the range ends are excluded",
  "test_intersect checks five rays against one sphere.",
  ["src/shape_sphere.rs", "src/common.rs"],
  [("quadratic in f64", "src/common.rs: quadratic"), ("root selection", "src/shape_sphere.rs: has_intersection"), ("point refinement", "src/shape_sphere.rs: compute_interaction")],
  [], ["Shape::intersect / intersect_p results"])

p("C14", "Triangle hits are exact, any-hit agrees, and meshes have no cracks",
  "For every non-degenerate triangle and ray, a hit is reported exactly if the ray crosses the triangle at a parameter strictly between 0 and the ray's range (up to rounding at the edges), with the right parameter, point and barycentric position, and the any-hit query always gives the same answer as the closest-hit query. A ray through an edge or vertex shared by the triangles of a closed fan hits at least one of them.",
  ["inputs"], "all lattice triangles in both windings x lattice origins x directions along every dominant axis and sign x ranges, against exact integer arithmetic; all rays through shared edges and vertices of lattice fans",
  "No test intersects a triangle. The code has two copies of the test and special sign cases for each winding and dominant axis.",
  ["src/shape_triangle.rs", "src/vector.rs"],
  [("edge functions in ray space", "src/shape_triangle.rs: intersect, intersect_p"), ("dominant axis permutation", "src/vector.rs: max_abs_axis, permute"), ("mesh construction", "src/shape_triangle.rs: new_triangle_mesh")],
  [], ["Shape::intersect / intersect_p results"])

p("C15", "Every hit carries a finite, correctly oriented local frame",
  "Every reported hit has a finite point, unit geometric and shading normals in the same hemisphere, and finite tangents that, together with the shading normal, let a scattering frame be built: the frame is orthonormal and converting a direction to local coordinates and back returns it. A triangle's normals follow its winding, are flipped by reversed orientation and by supplied vertex normals, and the normal of a sampled surface point equals the normal of a hit at the same point.",
  ["inputs", "configurations"], "all lattice hits on spheres (including both poles) and triangles, both orientations, all vertex-normal assignments from a small set including opposing and zero normals",
  "test_bsdf_world_loacl checks one frame; no test looks at tangents, shading normals or poles.",
  ["src/shape_sphere.rs", "src/shape_triangle.rs", "src/reflection.rs", "src/vector.rs"],
  [("partial derivatives", "src/shape_sphere.rs: compute_partial_derivative"), ("normal interpolation and flips", "src/shape_triangle.rs: intersect"), ("frame", "src/reflection.rs: BSDF::new"), ("construct_coordinate_system", "src/vector.rs")],
  [], ["hit records and scattering frames"])

p("C16", "Rays leaving a surface do not hit the spot they left",
  "A ray spawned from a hit point into any direction on either side of the surface never reports that same surface again at the point it left: for a triangle or the outside of a sphere it does not hit that shape at all, and going into a sphere it hits only the far side. The spawned origin stays within a few rounding errors of the hit point, and the recorded error bound covers the distance of the reported point from the true surface.",
  ["inputs"], "all lattice hits on triangles and spheres at several positions and scales x a direction lattice over both hemispheres including grazing ones",
  "No test spawns a ray. Self-hits depend on how the rounding of one particular hit point falls.",
  ["src/interaction.rs", "src/shape_triangle.rs", "src/shape_sphere.rs", "src/common.rs"],
  [("offset_ray_origin", "src/interaction.rs"), ("error bounds", "src/shape_triangle.rs, src/shape_sphere.rs: p_err"), ("next_float_up / next_float_down", "src/common.rs")],
  [], ["intersections of spawned rays"])

p("C17", "Shadow tests see exactly the blockers between a point and the light",
  "The visibility test between a surface point and a light reports blocked exactly if some shape lies strictly between the two (for a distant light: anywhere along the light's direction inside the scene); the two surfaces at the ends never block themselves. Distant lights report their fixed direction and radiance for every point.",
  ["inputs", "configurations"], "all placements of receiver, light and up to two blockers on a lattice, blockers before, between, beside and beyond the segment, for area and distant lights",
  "No test traces a shadow ray; range limits and end-point offsets matter only for particular placements.",
  ["src/light.rs", "src/interaction.rs", "src/scene.rs"],
  [("spawn_ray_to", "src/interaction.rs"), ("VisibilityTester", "src/light.rs"), ("pre_process with scene bounds", "src/light.rs, src/scene.rs")],
  [], ["VisibilityTester::unoccluded", "Light::sample_li"])

p("C18", "Area lights emit on one side and report the density they sample with",
  "An area light emits its radiance exactly on the side its surface normal points to. The points sampled on it are uniform over its surface; the density reported for a sampled direction and for a given direction is the same, is that of the sampled direction per unit solid angle as seen from the receiver (zero for directions that miss the light), and integrates to one over the directions that reach the light.",
  ["inputs", "configurations"], "all lattice receivers and lattice light triangles x complete sample lattices of several resolutions; all hit directions on a direction lattice",
  "No test samples a light. A wrong measure or side changes brightness, not types, and no fixed sample exposes it.",
  ["src/light.rs", "src/shape.rs", "src/shape_triangle.rs"],
  [("sample / sample_ref / pdf", "src/shape.rs, src/shape_triangle.rs"), ("sample_li, pdf_li, l", "src/light.rs")],
  [], ["Light::sample_li, Light::pdf_li, Shape::l"])

p("C19", "Scattering samples follow the reported density and evaluated value",
  "For every material and outgoing direction, directions drawn by importance sampling are distributed exactly as the density the material reports for them, and the value and density returned with a non-specular sample are the ones reported when the material is evaluated for that pair of directions. Densities are non-negative and integrate to at most one, and every reported lobe kind matches the side the sample lies on.",
  ["inputs", "configurations"], "complete two-dimensional sample lattices (all strata) for every material type, parameter set and outgoing direction in a lattice, histogrammed against integrals of the reported density",
  "test_has_type checks flags; no test samples or evaluates a material. A wrong density is invisible to any single sample.",
  ["src/reflection.rs", "src/microfacet.rs", "src/bxdf_lambertian_reflection.rs", "src/bxdf_microfacet_reflection.rs", "src/bxdf_microfacet_transmission.rs", "src/sampling.rs"],
  [("BSDF::sample_f / f / pdf", "src/reflection.rs"), ("sample_wh / pdf", "src/microfacet.rs"), ("cosine_sample_hemisphere", "src/sampling.rs")],
  [], ["BSDF::sample_f, f, pdf"])

p("C20", "Scattering is non-negative, finite, reciprocal and conserves energy",
  "For every material with reflectances in [0, 1] (for plastic: adding up to at most 1) and every pair of directions, the scattering value is finite and non-negative, is unchanged when the two directions are exchanged (for transmission: up to the squared ratio of refractive indices), and is zero for a lobe on the wrong side of the surface. The light scattered from any direction into all directions never exceeds the light received.",
  ["inputs", "configurations"], "all pairs on a direction lattice over both hemispheres, all material types with parameter lattices including zero and mixed roughness and reflectances 0 and 1; hemispherical integrals over complete lattices",
  "No test evaluates a material; energy and reciprocity are statements about all direction pairs and integrals.",
  ["src/reflection.rs", "src/microfacet.rs", "src/fresnel.rs", "src/bxdf_microfacet_reflection.rs", "src/bxdf_microfacet_transmission.rs", "src/bxdf_lambertian_reflection.rs", "src/material_glass.rs", "src/material_metal.rs", "src/material_plastic.rs", "src/material_lambertian_reflection.rs"],
  [("f of each lobe", "src/bxdf_*.rs"), ("masking-shadowing and distribution", "src/microfacet.rs"), ("lobe selection per side", "src/reflection.rs: BSDF::f")],
  [], ["BSDF::f, BSDF::sample_f"])

p("C21", "Specular surfaces obey the laws of reflection and refraction",
  "A mirror-like lobe sends light exactly into the mirror direction, a smooth transmitting lobe exactly into the direction given by Snell's law, on either side of the interface, and total internal reflection occurs exactly beyond the critical angle. The reflected and transmitted fractions are the Fresnel fractions for the given indices (dielectric or conductor), lie in [0, 1], and for clear glass sum to one. A rough surface of vanishing roughness reflects and transmits the same shares as a smooth one.",
  ["inputs", "configurations"], "all directions on a fine angle lattice from both sides x refractive index pairs below, at and above 1 x conductor parameters, against an f64 reference",
  "No test samples a specular lobe or evaluates a Fresnel term.",
  ["src/fresnel.rs", "src/reflection.rs", "src/bxdf_specular_reflection.rs", "src/bxdf_specular_transmission.rs", "src/material_mirror.rs", "src/material_glass.rs", "src/material_metal.rs", "src/material_plastic.rs"],
  [("fr_dielectric, fr_conductor", "src/fresnel.rs"), ("refract, reflect", "src/reflection.rs"), ("sample_f", "src/bxdf_specular_*.rs")],
  [], ["BSDF::sample_f"])

p("C22", "Estimated direct lighting equals the light that arrives",
  "Averaged over all random choices, the radiance rendered at a directly lit surface point equals the reflected share of the light that actually reaches it from all unblocked lights, for area lights, distant lights and several lights together, and for diffuse, glossy and specular receivers. It is zero where every light is blocked or faces away.",
  ["inputs", "configurations"], "every leaf of a complete grid of sampler answers for the path (light choice, light sample, two scattering samples), for each of a set of scenes with independently integrated reference values",
  "No test renders. A biased estimator looks plausible in every single sample; only the complete average decides.",
  ["src/integrator.rs", "src/light.rs", "src/sampling.rs", "src/scene.rs"],
  [("estimate_direct, uniform_sample_one_light", "src/integrator.rs"), ("power_heuristic", "src/sampling.rs")],
  [], ["image of a one-pixel film whose sampler enumerates the grid"])

p("C23", "Paths carry exactly the light of their bounces, each emitter once",
  "Averaged over all random choices, a path through any sequence of mirrors and glass interfaces ending on an emitter delivers the emitter's radiance times the product of the fractions at each bounce, also when random termination sets in; an emitter seen directly or through specular bounces contributes exactly once, and interreflected light between diffuse surfaces is the integral over their exchange. Paths that leave the scene deliver nothing.",
  ["inputs", "configurations"], "mirror/glass chains of every length 0..6 and reflectance in a set, with the full grid of sampler answers including every random-termination decision; two-bounce diffuse scenes over the full grid",
  "No test traces a path; termination bias and double counting appear only in the average and only from the fourth bounce on.",
  ["src/integrator.rs", "src/interaction.rs", "src/light.rs"],
  [("li: throughput, specular flag, Russian roulette", "src/integrator.rs")],
  [("beta", "path throughput", "src/integrator.rs: li")], ["image of a one-pixel film whose sampler enumerates the grid"])

p("C24", "Transforms compose, invert, and act consistently on all geometry",
  "For every composition of translations, scalings, rotations, look-at and perspective transforms, applying a composed transform equals applying its parts in turn, and the inverse undoes it, within rounding. The mapped box contains every mapped point of the box. Under affine transforms vectors, normals, rays and surface hits are consistent with points: differences of points map as vectors, normals stay perpendicular to mapped tangents and on their side, points of a ray map to points of the mapped ray, and the error bound of a hit stays a bound.",
  ["inputs", "histories"], "all words up to length 4 (5) over an alphabet of elementary transforms and inverses, applied to lattices of points, vectors, normals, rays and boxes, against an f64 matrix model",
  "Tests check one inverse, one product and one point; composition order, inverse bookkeeping and non-point kinds are untested.",
  ["src/transform.rs", "src/matrix.rs"],
  [("paired matrix and inverse", "src/transform.rs: Transform"), ("Matrix::inverse, Mul", "src/matrix.rs"), ("Transformable for each kind", "src/transform.rs")],
  [], ["Transform::apply, inverse_apply, inverse, Mul"])

p("C25", "Camera rays pass through their raster position",
  "For every camera placement, field of view, screen window, film resolution and raster position, the primary ray starts at the camera position, has unit direction, and passes through the point of the screen window that corresponds to that raster position: the upper-left raster corner is the window's (min x, max y) corner and the lower-right one its (max x, min y) corner.",
  ["inputs", "configurations"], "all raster positions on a lattice including corners and sub-pixel positions x camera placements x fields of view x asymmetric windows x resolutions, against an f64 pinhole model",
  "No test constructs a camera.",
  ["src/camera.rs", "src/transform.rs", "src/sampler.rs"],
  [("raster/screen/camera chain", "src/camera.rs: PerspectiveCamera::new"), ("generate_ray", "src/camera.rs")],
  [], ["Camera::generate_ray"])

p("C26", "Checkerboards tile the whole plane and space",
  "A two- or three-dimensional checkerboard texture returns its first value where the integer cell coordinates of the mapped point sum to an even number and its second elsewhere, so that crossing any single cell boundary switches the value, everywhere including negative coordinates and cell borders (which belong to the upper cell). The mappings scale and shift surface coordinates, or transform the hit point, as configured, and constant textures return their value.",
  ["inputs"], "all points of a half- and quarter-cell lattice over [-4, 4]^2 and ^3 and next to every cell border, several mappings, against an integer model",
  "No test evaluates a texture.",
  ["src/texture.rs"],
  [("CheckerboardTexture, Checkerboard3DTexture", "src/texture.rs"), ("UVMapping2D, IdentityMapping3D", "src/texture.rs")],
  [], ["Texture::evaluate"])

p("C27", "Rounding primitives are exact for every float",
  "The next-float-up and next-float-down functions return the adjacent representable number for every finite float (across zero, denormals and exponent boundaries) and saturate at the infinities. The quadratic solver returns the real roots in ascending order, accurate to rounding even under cancellation, exactly when they exist; clamping and interpolation stay within their bounds.",
  ["inputs"], "all 2^32 single-precision bit patterns for the float neighbours; all coefficient triples of a lattice spanning 12 orders of magnitude for the solver, against exact arithmetic",
  "No test calls these functions; errors sit at single values such as signed zero or denormals.",
  ["src/common.rs"],
  [("next_float_up, next_float_down", "src/common.rs"), ("quadratic", "src/common.rs"), ("clamp, lerp, gamma", "src/common.rs")],
  [], ["function results"])

p("C28", "A built scene contains everything that was added",
  "For every sequence of additions of shapes, lights and area lights, the built scene contains exactly those shapes and lights, an area light acting both as a shape that can be hit and as the very light its hits belong to, and each light is told bounds that enclose all geometry. Any such scene, including one with nothing in it, can be rendered; a triangle mesh yields exactly one triangle per index triple with the indexed corners and normals.",
  ["histories", "configurations"], "all sequences of up to 5 additions over the kinds of element; all index triples over small vertex lists with and without normals",
  "No test builds a scene or mesh.",
  ["src/scene.rs", "src/light.rs", "src/shape_triangle.rs", "src/bbox.rs", "src/container_kdtree.rs"],
  [("Builder::construct", "src/scene.rs"), ("bbox_of_shapes", "src/bbox.rs"), ("new_triangle_mesh", "src/shape_triangle.rs")],
  [], ["hits and lights of the built scene"])

p("C29", "Materials scatter the shares they are configured with",
  "For every material, its parameters (constants or textures, each evaluated at the point hit) and every pair of directions, the scattering value is that of its model. Matte: the reflectance over pi when both directions lie on one side of the surface. Rough metal, plastic and glass: the Torrance-Sparrow value with Trowbridge-Reitz facets and Smith shadowing, the two roughnesses acting along the two tangents, times the Fresnel share of the configured indices. Plastic: the sum of its matte and its glossy lobe. Negative reflectances count as zero.",
  ["inputs", "configurations"], "all pairs of a direction lattice over both sides x all material types x parameter lattices (zero, negative, unequal roughness, indices below and above 1) x tilted shading frames x textured parameters, against a double-precision model",
  "No test evaluates a material; swapping two roughnesses or one texture keeps every conservation law intact and shows only against the configured model.",
  ["src/material_lambertian_reflection.rs", "src/material_plastic.rs", "src/material_metal.rs", "src/material_glass.rs", "src/microfacet.rs", "src/fresnel.rs", "src/bxdf_microfacet_reflection.rs", "src/bxdf_microfacet_transmission.rs", "src/bxdf_lambertian_reflection.rs", "src/reflection.rs"],
  [("compute_scattering of each material", "src/material_*.rs"), ("f of each lobe", "src/bxdf_*.rs"), ("distribution and shadowing", "src/microfacet.rs")],
  [], ["BSDF::f of a hit with that material"])

p("C30", "Surface coordinates, tangents and textures belong to the point hit",
  "A hit on a sphere reports its azimuth (0 to 2 pi) and polar angle (0 to pi) about the z axis as surface coordinates, a hit on a triangle the interpolation of (0,0), (1,0), (1,1) at its corners; the tangents are the derivatives of the point by these coordinates. Where vertex normals are given, the shading tangents are perpendicular to the interpolated normal, the first being the derivative projected onto that plane. Scattering is evaluated in the frame whose first axis is the first shading tangent, and textures at exactly the surface coordinates or point in space of the hit.",
  ["inputs"], "all hits of a direction lattice on spheres and triangles at several places and sizes, with all assignments of tilted vertex normals, textures with cell borders across the surface, against geometry in double precision",
  "No test hits a shape with a texture; wrong coordinates or tangents leave every picture plausible.",
  ["src/shape_sphere.rs", "src/shape_triangle.rs", "src/interaction.rs", "src/reflection.rs", "src/texture.rs"],
  [("uv, dpdu, dpdv", "src/shape_sphere.rs, src/shape_triangle.rs: intersect"), ("shading frame", "src/reflection.rs: BSDF::new"), ("mappings", "src/texture.rs")],
  [], ["Scene::intersect, BSDF::f"])

p("C31", "The picture depends only on the scene, not on how it is placed or written",
  "Turning, shifting or uniformly scaling a whole scene together with its camera leaves the rendered image unchanged for the same sampler, up to rounding. So do the order in which shapes are added, the container they are kept in, cutting a plain triangle into smaller ones, adding the same shape twice, and adding things far outside every path.",
  ["configurations"], "scenes of all materials, shapes and lights x all combinations of 27 turns, 7 scales and 5 shifts; all combinations of containers, cuts, orders and duplicates; every image compared pixel by pixel with that of the plain scene",
  "No test renders. An epsilon in world units, a confused axis or a dependence on the order of shapes shows in no single picture, only in the comparison of two that must agree.",
  ["src/integrator.rs", "src/scene.rs", "src/camera.rs", "src/transform.rs", "src/container_kdtree.rs", "src/container_simple.rs", "src/interaction.rs", "src/light.rs", "src/shape_triangle.rs", "src/shape_sphere.rs"],
  [("render of the whole scene", "src/integrator.rs"), ("error bounds in place of epsilons", "src/shape_*.rs, src/interaction.rs")],
  [], ["rendered image file"])

p("C32", "Queries and renders leave nothing behind",
  "The answer to any query of a scene (closest hit, any hit, light sample, scattering, camera ray) does not depend on the queries asked before it or at the same time by another thread. A render writes the same image with a deterministic sampler whatever was rendered before, by the same integrator or another one in the process, with any number of workers, and also after renders that failed (a film keeps accumulating: the mean stays the same). When a render has returned or failed, none of its work goes on.",
  ["histories", "schedules"], "all words of queries up to length 4 (5) over an alphabet of 30, on a tree and a list; pairs of threads under all schedules; all words of 3 (4) acts: renders of three integrators by 1 to 3 workers, failing at the file or in a worker",
  "No test asks a scene anything, and none does anything twice; caches and leftovers show only in the second answer.",
  ["src/integrator.rs", "src/container_kdtree.rs", "src/container_simple.rs", "src/scene.rs", "src/film.rs", "src/shape_triangle.rs", "src/shape_sphere.rs", "src/light.rs"],
  [("render: clones, joins, output", "src/integrator.rs"), ("intersect, intersect_p take &self", "src/container_kdtree.rs"), ("accumulated film", "src/film.rs")],
  [("film", "accumulated weighted sums per pixel", "src/film.rs")], ["query answers; image files of successive renders"])

p("C33", "Vectors, points, colours and boxes obey componentwise arithmetic",
  "Every operation of vectors, points, normals and colours (of space and of the plane; with a number or with each other; as a new value or in place) acts on each component as the same operation on numbers; indices, axes, permutations and conversions name the component they say. Products, lengths, distances, luminance, positions on a ray, and the diagonal, surface, union, overlap, enclosing sphere and cells of boxes are those of geometry, for corners given in any order.",
  ["inputs"], "all pairs of triples over a lattice of 9 (13) short binary fractions for every operation, all pairs of boxes and points of a lattice; magnitudes from 2^-17 to 2^17 for lengths",
  "Tests look at one box iterator; a wrong component in one in-place operator shows only where the components differ.",
  ["src/vector.rs", "src/vector_macro.rs", "src/spectrum.rs", "src/axis.rs", "src/bbox.rs", "src/ray.rs"],
  [("operator macros", "src/vector_macro.rs"), ("BBox3f, BBox2", "src/bbox.rs"), ("Axis", "src/axis.rs")],
  [], ["results of the operations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
