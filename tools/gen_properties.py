#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
R = "crates/rerecast/src/"
E = "crates/bevy_rerecast_editor/src/"
I = "crates/bevy_rerecast_editor_integration/src/"
C = "crates/bevy_rerecast_core/src/"
A = "crates/avian_rerecast/src/"
props = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

EDHOOK = "rerecast_sim: the editor's modules made reachable as a library, its HTTP agent replaceable, read access to its scene components and layers"

p("C01", "A completed scene load reproduces the running game's scene",
  "When the editor's scene load succeeds, the editor holds exactly the scene the game had at the instant it answered: every navmesh affector with the same world-space triangles, and every visible, editor-visible mesh instance with the same placement (as far as translation, rotation and scale can express it), the same mesh data (topology, standard vertex attributes, indices) and the same material, including its textures' pixel data and samplers. "
  "Nothing is missing, duplicated, mixed with another instance or taken from a different moment, whatever the game does before or after answering and however the answer is fragmented, delayed or interleaved with other clients. "
  "(Documented losses are excluded: custom vertex attributes, image labels and view formats, render-asset usage.)",
  ["schedules", "histories", "inputs", "fault_sequences"],
  "all scenes, all interleavings of game frames, scene edits, several editors' requests and network segmentation/delay",
  "One unit test round-trips the positions and indices of one mesh; no test runs a game, an editor or a transfer, so nothing covers materials, images, transforms, sharing or a scene that changes while the request is in flight.",
  [E+"get_navmesh_input.rs", I+"brp.rs", I+"transmission/*"],
  [("one world access builds the whole response", I+"brp.rs get_navmesh_input"), ("index tables for shared assets", I+"brp.rs"), ("proxy types mirror Mesh, Image, StandardMaterial", I+"transmission"), ("editor rebuilds entities and assets from the decoded response", E+"get_navmesh_input.rs fetch_navmesh_input")],
  ["the game world at the frame that served the request", "the editor world after the load"], hook=EDHOOK)

p("C02", "A failed scene load changes nothing in the editor and does not stop it",
  "If a scene load fails for any reason (game not running, connection refused or cut at any byte, stalled and closed, truncated or damaged answer, an error answer, a foreign server on the port), the editor keeps its previous scene, layers and navmesh exactly as they were, reports an error and keeps running. "
  "A load that is reported as successful never shows a scene other than the one the game sent.",
  ["fault_sequences", "crash_points", "histories"],
  "every position and kind of transport fault, every history of earlier loads, builds and toggles",
  "No test touches the transfer; the failure positions (every byte of the exchange) and the prior states of the editor cannot be listed by hand.",
  [E+"get_navmesh_input.rs", E+"main.rs", I+"transmission/serialization.rs"],
  [("all fallible steps precede the first despawn", E+"get_navmesh_input.rs fetch_navmesh_input"), ("observer returns Result; global error handler logs", E+"main.rs"), ("gzip checksum detects damage", I+"transmission/serialization.rs")],
  ["editor world before/after a failed load", "global error handler"], hook=EDHOOK)

p("C03", "Editor and game recover as soon as faults stop",
  "After any sequence of network faults, game crashes and restarts (with the same or another scene), failed loads and failed builds, once faults stop the next load the user requests succeeds within a bounded number of game frames and the next build on a buildable scene succeeds. "
  "Both give the same result as they would in a freshly started editor connected to that game.",
  ["fault_sequences", "histories", "crash_points"],
  "all finite fault and operation histories, followed by a fault-free suffix",
  "Tests contain no faults, no restarts and no long histories; recovery is a statement about every history.",
  [E+"get_navmesh_input.rs", E+"build.rs", I+"brp.rs"],
  [("each load opens its own exchange and keeps no state of earlier ones", E+"get_navmesh_input.rs"), ("the method is registered at startup of every game process", I+"brp.rs setup_methods")],
  ["editor world after the fault-free suffix", "reference editor started fresh"], hook=EDHOOK)

p("C04", "Answering the editor never changes or stops the game",
  "A game with the editor integration survives any sequence of requests on its remote interface, in any order and timing and with clients that disappear: each navmesh-input request is answered exactly once, a request with parameters with an invalid-params error, a request without a usable backend or without the needed asset stores with an internal error, and any other with the scene. "
  "Serving requests leaves the game's entities, components and assets exactly as a game that was never asked would have them.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "all interleavings of requests (valid, with parameters, abandoned, unknown methods) with game frames, backend changes, missing resources",
  "No test runs the remote method at all.",
  [I+"brp.rs", C+"backend.rs"],
  [("parameter check, backend check, resource checks return errors", I+"brp.rs get_navmesh_input"), ("read-only queries and clones", I+"brp.rs")],
  ["responses on the remote channel", "twin game that receives no requests"])

p("C05", "Half-loaded game assets degrade only the objects that use them",
  "If assets of the game are not loaded yet, fail to load or are unloaded, a scene request still succeeds: instances whose mesh is unavailable are left out, instances whose material (or any of its textures) is unavailable arrive with the editor's fallback material, and every other instance arrives complete and unaltered. "
  "Once the assets are available the next load delivers the complete scene.",
  ["schedules", "fault_sequences", "histories"],
  "all orders in which meshes, materials and images become available or are dropped relative to requests",
  "No test has an unloaded asset; the orders of asset arrival versus request are unbounded.",
  [I+"brp.rs", I+"transmission/serialized_standard_material.rs", C+"mesh.rs", E+"get_navmesh_input.rs"],
  [("missing mesh skips the visual; material conversion error yields no material", I+"brp.rs"), ("ImageNotFound error", I+"transmission/serialized_standard_material.rs")],
  ["decoded response, editor world"], hook=EDHOOK)

p("C06", "A damaged payload is rejected, never decoded to something else",
  "Encoding a navmesh-input payload and decoding it yields the same value, however the bytes are carried. "
  "A payload that was truncated, torn, spliced with another payload, or had bytes or bits altered anywhere either fails to decode with an error or decodes to the value that was encoded; it never yields a different value and never panics.",
  ["fault_sequences", "crash_points", "inputs"],
  "every truncation point, bit position, splice offset and payload",
  "The only encode/decode test is one undamaged mesh without the encoding layer; the damage space is every byte position of every payload.",
  [I+"transmission/serialization.rs"],
  [("gzip with CRC and length trailer over the binary encoding, base64 in JSON", I+"transmission/serialization.rs")],
  ["serialize/deserialize results"])

p("C07", "Reloading replaces the old scene completely and leaks nothing",
  "After any number of loads, the editor contains exactly the entities of the most recent successful load plus its own permanent entities; no entity, mesh, material, image or gizmo of an earlier scene remains in use, and the editor's asset stores do not grow from load to load of an unchanged scene. "
  "Entities that are not part of a loaded scene are never removed or altered by a load.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of successful and failed loads, builds and toggles with changing scenes",
  "Residue and leaks only show over histories; no test performs even one load.",
  [E+"get_navmesh_input.rs", E+"visualization.rs"],
  [("despawn of marked entities before spawning the new scene", E+"get_navmesh_input.rs"), ("handles dropped with their entities", E+"get_navmesh_input.rs")],
  ["editor entity and asset counts"], hook=EDHOOK)

p("C08", "Everything with a mesh is offered to the editor, unless set to manual",
  "With default settings, in every game history each entity that receives a mesh, at whatever time and in whatever way (spawn, later insert, scene hierarchy, re-insert after removal), is marked visible to the editor no later than the end of that frame, and a mark the game removes deliberately stays removed until the mesh is added anew. "
  "With the manual policy no entity is ever marked automatically and exactly the entities the game marks are sent.",
  ["histories", "configurations", "schedules"],
  "all histories of spawning, inserting, replacing, removing meshes and marks, and plugin orders",
  "No test covers the policy; it is a statement about every history of structural changes.",
  [I+"lib.rs", I+"brp.rs"],
  [("OnAdd observer for Mesh3d inserts EditorVisible", I+"lib.rs"), ("visual query filters With<EditorVisible>", I+"brp.rs")],
  ["EditorVisible components; decoded response"])

p("C09", "The mesh backend reports exactly the live, loaded triangle meshes",
  "At every request, the mesh-based backend reports one affector per existing entity with a loaded indexed triangle-list mesh, with the entity's current world transform and its mesh's current vertices and triangles, and nothing for entities that were despawned, lost their mesh, or whose mesh is not loaded or not an indexed triangle list. "
  "It holds for every history of spawning, moving, re-parenting, editing, replacing and unloading.",
  ["histories", "schedules", "inputs"],
  "all histories of scene mutation interleaved with requests; all mesh topologies and index formats",
  "The only test converts one static mesh; staleness and lifecycle errors need histories.",
  [C+"mesh.rs", C+"backend.rs"],
  [("system queries (GlobalTransform, Mesh3d) on each run", C+"mesh.rs mesh3d_backend"), ("TriMesh::from_mesh topology and index checks", C+"mesh.rs")],
  ["affector list in the decoded response / backend system output"])

p("C10", "The last registered affector backend is the one used, at any time",
  "At any moment scene requests use the affector backend that was registered last, in whatever order plugins were added and however often it was replaced while the game runs and requests are in flight; with none registered every request is answered with an internal error. "
  "The remote method is available whenever the remote plugin is part of the app, regardless of plugin order, and its absence is harmless when it is not.",
  ["configurations", "schedules", "histories"],
  "all plugin orders, backend registrations and replacement times relative to requests",
  "No test adds the plugins to an app.",
  [C+"backend.rs", I+"brp.rs", "crates/bevy_rerecast/src/lib.rs"],
  [("NavmeshAffectorBackend resource replaced on registration", C+"backend.rs"), ("method registered in Startup if RemoteMethods exists", I+"brp.rs plugin")],
  ["responses on the remote channel"])

p("C11", "The Avian backend reports exactly the static bodies' colliders",
  "At every request, the physics backend reports one affector for every supported collider attached to a body that is static at that moment, at the collider's current world transform, and none for colliders of dynamic or kinematic bodies, colliders without a body, or removed ones, for every history of spawning, moving, re-parenting and changing body types. "
  "Its triangles describe the collider's current shape; a compound collider is the union of its parts, each at its own position and rotation.",
  ["histories", "schedules", "inputs"],
  "all histories of body/collider changes interleaved with physics steps and requests; all shapes and compounds of shapes",
  "The only test counts the vertices of one cuboid.",
  [A+"lib.rs", A+"collider_to_trimesh.rs"],
  [("query over ColliderOf and RigidBody", A+"lib.rs collider_backend"), ("shape conversion and compound folding", A+"collider_to_trimesh.rs")],
  ["backend system output"])

p("C12", "A build either replaces the whole navmesh or changes nothing",
  "When the user requests a build, either the complete result of that build (polygon mesh and detail mesh of the same scene) replaces the previous navmesh, or the build fails with a reported error and the previous navmesh stays as it was; the editor keeps running in both cases. "
  "This holds for every loaded scene - empty, degenerate, tiny, or without any walkable surface - and every history of loads, builds and toggles around it.",
  ["histories", "inputs", "fault_sequences"],
  "all scenes the game can send and all histories of loads (including failed and partial ones), builds and toggles",
  "Tests run the pipeline on a few fixed non-degenerate scenes outside the editor; failed builds and their histories are never exercised.",
  [E+"build.rs", E+"visualization.rs", R+"*"],
  [("resource inserted only after all stages succeeded", E+"build.rs build_navmesh"), ("stages return errors", R)],
  ["editor navmesh before/after build", "process survival"], hook=EDHOOK)

p("C13", "The editor's navmesh is the documented pipeline applied to the loaded scene",
  "After a successful build the editor's navmesh equals the result of running the library's documented build stages, with the current build settings, over precisely the affectors of the most recent successful load, in world space. "
  "No earlier scene, no later change of the game, no visual-only mesh and no frame timing between load and build influences it, and repeating the build gives the same navmesh.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of loads, failed loads, builds and frame timings; all loaded scenes",
  "Tests compare single stages for fixed inputs outside the editor; which geometry reaches the pipeline depends on the history.",
  [E+"build.rs", E+"get_navmesh_input.rs"],
  [("build collects the affector entities' meshes in world space", E+"build.rs"), ("stage order and parameters", E+"build.rs")],
  ["editor navmesh; reference pipeline run"], hook=EDHOOK)

p("C14", "What the editor shows always matches the layer switches",
  "After every frame, the visual layer, the affector outlines, the polygon mesh and the detail mesh are shown if and only if their switch is on and there is something to show, and a shown layer depicts the current scene or navmesh, never an earlier one. "
  "This holds for every order of toggles, loads, failed loads and builds, including several in the same frame.",
  ["histories", "schedules"],
  "all sequences of toggles, loads, failed loads, builds and frames",
  "No test covers the editor; the state space is every order of toggles, loads and builds.",
  [E+"visualization.rs", E+"get_navmesh_input.rs", E+"ui.rs"],
  [("run conditions on layer switches and navmesh changes", E+"visualization.rs plugin"), ("gizmo assets cleared and redrawn", E+"visualization.rs")],
  ["gizmo contents, Visibility, surface meshes per layer"], hook=EDHOOK)

p("C15", "Concurrent and interleaved builds do not influence one another",
  "Navmesh builds running at the same time on different threads, in any interleaving, also next to builds that are cancelled, panic or fail midway, each produce bit for bit the result the same input gives when built alone. "
  "Building the same input again at any later time, after any other work in the process, gives the same result.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of stage-internal steps of several builds, and all points at which other builds are abandoned",
  "All tests build one navmesh per process step and never check repeatability; interleavings are not enumerable by tests.",
  [R+"heightfield.rs", R+"watershed_build_regions.rs", R+"poly_mesh.rs", R+"detail_mesh.rs"],
  [("all build state is owned by the builder's values; no statics", R), ("ordered containers and index-based pools give reproducible order", R)],
  ["stage results per thread"], hook="rerecast_sim: yield points inside the stage loops")

p("C16", "Stored intermediate build results resume to the same navmesh",
  "Every intermediate and final build product that the library can store (triangle mesh, heightfield, compact heightfield, polygon mesh, detail mesh, navmesh) can be stored, reloaded in another process at any stage, and continued, and the finished navmesh is identical to an uninterrupted build. "
  "A crash between or during stores costs at most the work since the last complete store, and a store that was cut short at any byte is rejected instead of loading as a different product.",
  ["crash_points", "fault_sequences", "histories"],
  "all crash points between and within stage stores, all inputs",
  "No test serialises build products; crash points between stages are not exercised.",
  [R+"heightfield.rs", R+"compact_heightfield.rs", R+"poly_mesh.rs", R+"detail_mesh.rs", R+"trimesh.rs", C+"lib.rs"],
  [("serde derives on all build products, span pool keyed by stable keys", R)],
  ["resumed versus uninterrupted results"])

p("C17", "Every on-demand generation request gets its own navmesh",
  "Each call that queues a navmesh generation returns a handle that is different from every handle returned before and from every navmesh asset that exists, whatever the interleaving with other systems that add or drop navmesh assets. "
  "A queued request is fulfilled: the handle's navmesh eventually becomes available, requests completing in the order in which they were made.",
  ["schedules", "histories"],
  "all interleavings of generation requests with asset additions, drops and frames",
  "No test calls the generator.",
  [C+"generator.rs", C+"lib.rs"],
  [("reserve_handle per request, FIFO queue", C+"generator.rs")],
  ["handles and Assets<Navmesh>"])

p("C18", "Each user action in the editor takes effect exactly once",
  "Pressing Load in the load dialog sends exactly one scene request to the game and closes the dialog, pressing Build runs exactly one build, each layer switch flips exactly its own layer, and closing the dialog does none of these; no action is lost, repeated or applied to another control, whatever the network does during the load. "
  "The editor contacts the game only when the user asks it to.",
  ["histories", "schedules", "fault_sequences"],
  "all sequences of user actions, frames and network faults",
  "The UI and the request path have no tests.",
  [E+"ui.rs", E+"get_navmesh_input.rs", E+"theme/widget.rs"],
  [("button observers trigger one event each", E+"ui.rs"), ("one POST per GetNavmeshInput event", E+"get_navmesh_input.rs")],
  ["requests arriving at the simulated game", "layer switches, dialog entities"], hook=EDHOOK)

p("C19", "Flying the editor camera depends on elapsed time, not on frame timing",
  "While a direction is held, the camera moves at the set speed in the held direction times the elapsed time, however that time is split into frames, including stalls and zero-length frames; it moves only while the cursor is grabbed, comes to rest after release, its pitch never leaves straight up/down, and its position and rotation stay finite.",
  ["schedules", "histories", "inputs"],
  "all frame-time sequences (jitter, stalls, zero-length frames) and input histories",
  "The camera has no tests and time-dependent behaviour needs a controlled clock.",
  [E+"camera/camera_controller.rs"],
  [("velocity integrated with the frame's delta time", E+"camera/camera_controller.rs"), ("pitch clamp", E+"camera/camera_controller.rs")],
  ["camera Transform"], hook=EDHOOK)

# --- pure functions of their input: not applicable to deterministic simulation -------------
PURE = "fixed scenes (dungeon, unit cubes) are all the tests reach; the property ranges over every input geometry and configuration"
def pure(id, title, statement, files, mech, text="all input geometry and configurations"):
    p(id, title, statement, ["inputs", "configurations"], text, PURE, files, mech)
pure("P01", "Each build stage matches the reference implementation",
  "For every geometry and configuration, each stage's result agrees with the reference C++ Recast's result for the same input.",
  [R+"*", "crates/rerecast/tests/cpp_comparison.rs"], [("port of Recast", R)])
pure("P02", "Voxelisation covers every triangle",
  "Every voxel column a triangle's surface passes through within the field's bounds contains a solid span covering the height range of the triangle in that column, spans of a column are sorted and disjoint, and no span appears in columns the triangle does not touch.",
  [R+"rasterize.rs", R+"heightfield.rs", R+"span.rs"], [("triangle clipping per row/column and span merging", R+"rasterize.rs")])
pure("P03", "Walkable surface keeps clearance from walls, ledges and ceilings",
  "No walkable cell of the eroded field is closer than the agent radius to an obstacle or drop larger than the climb height, nor has less headroom than the agent height.",
  [R+"pre_filter.rs", R+"erosion.rs", R+"compact_heightfield.rs"], [("filters, neighbour connection, distance-based erosion", R)])
pure("P04", "Regions partition the walkable surface into connected pieces",
  "Every region is a connected set of walkable cells, no cell belongs to two regions, and only regions below the minimum size are dropped.",
  [R+"watershed_distance_field.rs", R+"watershed_build_regions.rs", R+"region.rs"], [("watershed partitioning", R+"watershed_build_regions.rs")])
pure("P05", "Contours follow region borders within the allowed error",
  "Every region's contour is a closed outline of that region that deviates at most the simplification error from its raw border, and adjacent regions share identical border vertices.",
  [R+"contours.rs"], [("contour tracing and simplification", R+"contours.rs")])
pure("P06", "The polygon mesh is a valid convex partition with mutual neighbours",
  "Every polygon is convex with at most the configured number of vertices, uses existing vertices, edges are shared by at most two polygons, and neighbour links are symmetric.",
  [R+"poly_mesh.rs"], [("triangulation, merging, adjacency", R+"poly_mesh.rs")])
pure("P07", "The detail mesh follows the surface within the sampling error",
  "Each polygon's detail triangulation covers the polygon and its height differs from the walkable surface by at most the configured error at the sample points.",
  [R+"detail_mesh.rs"], [("height patches, sampling, Delaunay insertion", R+"detail_mesh.rs")])
pure("P08", "Marking a convex area changes exactly the cells inside the volume",
  "Marking an area assigns the area type to precisely the walkable cells whose centre lies in the convex prism between its minimum and maximum height.",
  [R+"mark_convex_poly_area.rs", R+"math.rs"], [("point-in-polygon test per cell", R+"mark_convex_poly_area.rs")])
pure("P09", "World-unit settings are converted to voxel units conservatively",
  "The derived configuration never lets the agent pass where its world-unit radius, height, climb or slope forbids it.",
  [R+"config.rs"], [("rounding of each setting", R+"config.rs")])
pure("P10", "Material and mesh proxies accept everything an engine scene can contain",
  "Every mesh, image and material value the engine can hold converts to its transfer form without panicking.",
  [I+"transmission/*"], [("proxy enums cover all engine variants", I+"transmission")])

with open(OUT, "w") as f:
    for x in props: f.write(json.dumps(x) + "\n")
print(len(props), "properties")
