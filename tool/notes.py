COMMON_ASSUMPTIONS = [
    "machine floats are treated as mathematical reals (no rounding, overflow or NaN); every value is below f32::MAX in magnitude",
    "sin, cos, sqrt are characterised by sin^2+cos^2=1, sqrt(x)>=0 and sqrt(x)^2=x; other transcendental functions are uninterpreted",
    "pi is any number between 3.14159 and 3.1416",
]
NOT_APPLICABLE = {}
REALS = "Every obligation generated from the current source is discharged for all real inputs; floats are treated as reals. "
NOTES = {
    "P01": {"note": REALS + "All vector, rotation, transform and matrix functions; the two power-of-two helpers by running them on every 32-bit value (complete, not sampled).", "assumptions": ["power-of-two helpers: decided by exhaustive evaluation of all 2^32 (2^31 where the next power exists) arguments, not by a solver", "absolute value of integers: arguments up to 2^20 in size and the extremes (bounded)"]},
    "P03": {"note": REALS + "All box functions.", "assumptions": ["ray direction components are zero or at least the epsilon the code treats as zero"]},
    "P06": {"note": REALS + "All shape types; polygons up to the vertex limit; chains by segment index with up to 5 vertices."},
    "P08": {"note": REALS + "Polygon ray casts are covered for 3 and 4 sides (bounded in the number of sides), point tests up to the vertex limit.", "assumptions": ["polygon ray cast: polygons with 3 or 4 sides only (bounded)", "ray directions shorter than the epsilon the code treats as zero are excluded for circles"]},
    "P07": {"note": REALS + "Polygons up to the vertex limit; bodies with up to three fixtures of arbitrary mass data (bounded in the number of fixtures).", "assumptions": ["body mass: up to three fixtures (bounded)"]},
    "P10": {"note": REALS + "Circle against polygon for 3 and 4 sides, best separating face for side counts (3,3), (2,4), (4,2), facing edge for up to 4 sides (bounded in the number of sides); polygon pairs and edge-polygon pairs against the contracts of those searches; contact creation and evaluation for all shape pairs.", "assumptions": ["polygon searches: polygons with up to 4 sides (bounded)", "exact ties between two candidate reference faces are left out", "edges at least as long as the epsilon the code normalises with"]},
    "P11": {"note": REALS + "The search loop by its invariant: one iteration from any simplex of one to three vertex pairs (covering ten index patterns), with the support function and the two reductions by their contracts, which are proved separately; so any number of iterations and vertices.", "assumptions": ["the search does not stop at its limit of 20 iterations (then only the points, not their minimality, are claimed)", "segments of the search are at least epsilon long", "a cache passed in names existing corners and no pair twice"]},
    "P12": {"note": REALS + "The separation function directly; the nested search loops by cutting each after the second round (every later round starts from a state of the same kind, times generalised to any value in the motion), with distance, support and closest-point functions by their contracts (P11).", "assumptions": ["loop rounds beyond those explored start from states covered by the explored ones (argued in DESIGN.md, not machine-checked)", "the searches do not stop at their iteration limits for the claims on touching and staying apart"]},
    "P13": {"note": REALS + "; one pass of the solver over a list of one contact (one or two points) from an arbitrary state, so every iteration count follows; lists of two contacts for the frame"},
    "P14": {"note": REALS + "; one pass over one contact from an arbitrary state; circle contacts whose centres are closer than the smallest length are left out; two corrected points at once: exact for bodies that do not turn, opposite pushes only for bodies that turn"},
    "P19": {"note": REALS + "; bodies without fixtures (fixture proxies are P05, fixture masses P07)"},
    "P20": {"note": REALS},
    "P15": {"note": REALS},
    "P16": {"note": REALS},
    "P17": {"note": REALS},
    "P18": {"note": REALS},
    "P09": {"note": REALS + "Boxes, edges; chains with up to 6 vertices; centroids up to the vertex limit; hulls of 3 and 4 points in every position, with and without merging (bounded in the number of points).", "assumptions": ["hulls: 3 or 4 points (bounded)", "the given points are not all on one line and at least three stay after merging, as the documentation demands", "the outline has an area above epsilon"]},
    "P04": {"note": REALS + "Insertion, removal and the walk upwards cut into local steps: the part of the tree a step touches is spelled out with arbitrary boxes, everything else has ids that must not be touched; rotations in any surroundings; queries and rays on trees of up to 3 and 2 leaves, each of which may stand for a subtree.", "assumptions": ["heights next to a rotation: every order of heights within 4 levels of each other, at the bottom and 40 levels up (bounded)", "whole-tree facts follow from the local ones by induction over the walk and over the tree; the induction itself is argued in DESIGN.md, not machine checked", "queries: trees of up to 3 leaves, rays: up to 2 (bounded), pool growth for pools of 1, 2, 3, 4 and 16 nodes (bounded)", "rebuild: up to 3 leaves (bounded)"]},
    "P05": {"note": REALS + "Pair updates with up to 3 proxies in any buffered state and any boxes; buffer operations with the tree by its contract.", "assumptions": ["pair updates: up to 3 proxies and 4 buffer entries (bounded)", "proxy operations: the dynamic tree by its contract (P04)"]},
    "P21": {"note": REALS + "Bodies, shapes and boxes arbitrary; filter decisions for 6 values of each bit field and 10 pairs of groups, and for worlds of two or three bodies with up to two joints (bounded); the tree by its contract.", "assumptions": ["filter data: 6 values of each of the four bit fields, 10 pairs of group indices (bounded)", "worlds: up to three bodies, four fixtures, two joints (bounded)", "the dynamic tree by its contract (P04)"]},
    "P22": {"note": REALS + "One update of one contact from any state to any narrow-phase result, so every history follows; creation, destruction and the narrow phase in worlds of up to three bodies and four fixtures (bounded); narrow phase, overlap test and tree by their contracts.", "assumptions": ["worlds: up to three bodies, four fixtures, three contacts (bounded)", "new manifold points carry distinct ids", "narrow phase by its contract (P10), tree by its contract (P04)"]},
    "P23": {"note": REALS + "Every pair of changes in succession (create, destroy, enable, disable, retype) to a world of three bodies, three fixtures, three joints and two contacts, all states arbitrary (bounded in the number of objects); the tree by its contract.", "assumptions": ["worlds of up to five bodies, two changes in succession (bounded)", "the dynamic tree by its contract (P04)"]},
    "P24": {"note": REALS + "Worlds with up to three shape children, shapes by their contract (any box, any hit), any callback behaviour; the tree walk for any size is P04.", "assumptions": ["worlds with up to three shape children (bounded; larger trees: P04)", "shapes by their contract: a hit lies in the shape's box and within the asked length (P06, P08)"]},
    "P25": {"note": "Element values are arbitrary. Each list operation on lists written out link by link, nodes outside the neighbourhood must not be touched, so that lists of any length follow; stacks of inline capacity 1, 2 and 256 for histories of up to 12 operations (capacity 2) and up to 900 elements (capacity 256) (bounded).", "assumptions": ["stack histories: up to 12 operations for capacity 2, up-down-up runs for capacities 1 and 256 (bounded)", "searching the singly linked list: up to 5 elements (bounded)"]},
    "P26": {"note": "Every number is arbitrary: a value that is dropped, swapped or altered on the way out or in fails the equality of that value. The save and load code runs on the real serde, serde_json (fields by name) and bincode (fields by order). Bodies: all kinds and flag settings; shapes: all kinds, polygons with 3 to 8 vertices, chains with 2 to 4; all joint kinds. Worlds of up to 3 bodies, 2 fixtures per body and 4 joints (bounded).", "assumptions": ["list lengths: up to 3 bodies, 2 fixtures per body, 4 joints, chains of up to 4 vertices (bounded)", "filter words and user data: fixed sample values", "text conversion of single numbers by serde_json and bincode is lossless (numbers travel as symbols)", "tree insertion assumed by contract (P04)"]},
    "P27": {"note": REALS + "Each correction for one constraint from an arbitrary state, lists by composition, the step with the corrections by their contracts; creation for 3 and 4 vertices, the resting rope as a whole with 4 vertices (bounded).", "assumptions": ["segments the distance and stretch corrections measure are at least epsilon long", "atan2(0, x) = 0 for positive x; atan2 and exp otherwise uninterpreted", "creation: 3 or 4 vertices; whole resting rope: 4 vertices (bounded)"]},
    "P28": {"note": REALS + "One round of the continuous phase from any state of a running step (any times reached, any known or unknown impacts), so that every number of rounds follows; pairs of bodies of all kinds, with a third body touching (bounded to three bodies, two contacts); impact times, sub-step and narrow phase by their contracts.", "assumptions": ["worlds of up to four bodies and two contacts (bounded)", "time of impact by its contract (P12), sub-step by its contract (P20, P13, P14), narrow phase by its contract (P10), tree by its contract (P04)", "known impacts lie ahead of the motion: assumed at the start of a round, shown again at its end"]},
    "P29": {"note": REALS + "Every shape kind (polygons of 3 to 8 corners, chains of 2 to 4 vertices), every joint kind, all body states pairwise, all 32 choices of categories, ropes of 3 and 4 vertices; worlds of two bodies (bounded).", "assumptions": ["worlds of two bodies and up to three fixtures, ropes of up to 4 vertices, chains of up to 4 (bounded)", "tree insertion by its contract (P04)", "anchors of a distance joint coincide or are at least epsilon apart"]},
    "P02": {"note": REALS + "Sweep interpolation, advance, normalise."},
}
