import json
B='hypothesis_geometry/_core/base.py'; Fa='hypothesis_geometry/_core/factories.py'; Pl='hypothesis_geometry/planar.py'
Co='hypothesis_geometry/_core/contracts.py'; Tr='hypothesis_geometry/_core/triangular.py'; Su='hypothesis_geometry/_core/subdivisional.py'; Ut='hypothesis_geometry/_core/utils.py'
OBS=['geometry delivered by drawing from the strategies returned by hypothesis_geometry.planar.*']
def p(id,title,st,over,q,why,files,mech,state=None,hook=None,obs=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or OBS,hook_needed=hook))
L=[]
L.append(p('C01','A recorded choice sequence always replays to the identical geometry',
 'Drawing from a strategy is a function of the strategy\'s arguments and the recorded Hypothesis choice sequence alone: replaying the choices recorded by a draw delivers the identical geometry (same kinds, same coordinates, same order of every element) and consumes the same choices, and a replay of a rejected draw is rejected again. This holds in another process, under another string-hash seed, heap layout, clock, global `random` state or garbage-collection history, and whatever was drawn before.',
 ['histories','configurations','schedules'],'every strategy, arguments, choice sequence, and pair of ambient environments (process, hash seed, object addresses, clock, OS entropy, global random state, GC, preceding draws)',
 'The tests draw each example once, in one process, and never compare two executions of the same choices; dependence on addresses, hash order, clocks or earlier draws is invisible to them.',
 [B,Fa,Su,Tr],[('every random decision is drawn through Hypothesis (st.randoms, choosers, sizes, permutations)',B),('edge containers are ordered by an explicit key rather than by address',Fa),('stateless factories: no module or strategy level mutable state',Fa)],
 [dict(name='choice stream',meaning='the only permitted input of a draw',where='hypothesis ConjectureData'),dict(name='edge sets',meaning='sets of quad-edges hashed by object address',where=Fa)]))
L.append(p('C02','Concurrent draws from shared strategies do not affect one another',
 'When several caller threads draw at the same time from the same strategies sharing one geometry context, each draw delivers exactly what it would deliver drawing alone from the same randomness: the same geometry, rejection or error, and the same recorded choices. No interleaving of the threads may change, mix, lose or corrupt any result.',
 ['schedules','histories'],'every interleaving, at source-line granularity of the library, of any number of concurrent draws from shared strategies and contexts',
 'The tests are single-threaded.',[B,Fa,Tr,Su,Co,Ut],[('working state (point lists, edge sets, triangulations, sort keys) is local to each draw',Fa),('composite closures keep their accumulators per draw',B)],
 [dict(name='per-draw accumulators',meaning='points, segments, polygons being assembled by one draw',where=B),dict(name='triangulation',meaning='mutable quad-edge structure being carved',where=Fa)]))
L.append(p('C03','A failure inside a draw reaches the caller unchanged and nothing is delivered',
 'If drawing a coordinate raises an exception or rejects the example, a function of the geometry context fails, or the choice source runs out, or if the caller is interrupted (KeyboardInterrupt, MemoryError and the like) at any point of a draw, that very exception or rejection reaches the caller: it is never swallowed, retried into a success, replaced by another error or turned into a geometry. The same failures leave data the caller owns (the lists behind its strategies, previously delivered geometries) untouched.',
 ['fault_sequences','crash_points','histories'],'every strategy and arguments, every fault kind and every point of the draw at which the fault strikes',
 'The tests never make a coordinate strategy fail, never exhaust the choice source at a chosen point and never interrupt a draw.',[B,Fa,Tr],[('no broad exception handlers around draws or factories; the single handler guards an empty candidate set only',Fa),('draw functions propagate',B)]))
L.append(p('C04','Failed, abandoned or interrupted draws leave no trace on later draws',
 'After any sequence of draws that succeeded, were rejected, failed with an exception, ran out of choices or were interrupted at an arbitrary point, every later draw from the same strategies and context, and from newly created ones, behaves exactly like the same draw made first thing in a fresh process. There is no state a crash can leave half-updated.',
 ['crash_points','fault_sequences','histories'],'every history of draws and faults over shared strategies, and every later draw',
 'The tests use a fresh strategy per example and never inject a fault, so state surviving a failed draw is never observed.',[B,Fa,Tr,Pl],[('strategies are immutable descriptions; all mutable state is created inside the draw',B)],
 [dict(name='strategy objects and closures',meaning='the only thing that survives a draw',where=B)]))
L.append(p('C05','Every draw ends: a valid geometry or a Hypothesis rejection in bounded work',
 'With coordinate strategies that deliver exact rational numbers from a large enough set, and whatever the choice source delivers (random, adversarial, exhausted, or a corrupted recording of an earlier draw), every draw ends after a bounded number of choices and of executed steps, by delivering a geometry or by a rejection of the example through Hypothesis. It never loops forever and never ends in any other exception, such as a failed internal assertion, an index or type error, or an invalid-argument error raised for an inner strategy.',
 ['inputs','fault_sequences','histories','configurations'],'every strategy, size arguments, choice source and corruption of a recorded choice sequence',
 'The tests sample 100 well-formed draws per argument kind from Hypothesis\' default distribution; hostile sources, corrupted replays and degenerate coordinate sets (grids, near-collinear points) are hardly reached and step counts are not bounded.',[Fa,Tr,B,Ut],[('increment-driven mouth and ear removal always consumes a candidate',Fa),('size planning of sub-ranges',B),('prime search for grid size',Ut)]))
L.append(p('C06','A delivered geometry belongs to its caller: mutating it affects nothing else',
 'A caller that modifies a geometry it received in place (clearing, reversing or extending its lists of vertices, holes, contours, points, segments or polygons) never changes any geometry delivered before or later, nor the choices or outcome of any other draw. No mutable part is shared between two delivered geometries or with the strategy that produced them.',
 ['histories','schedules'],'every history of draws interleaved with in-place modifications of delivered geometries, also across threads',
 'The tests draw one geometry per example and never modify it.',[B,Fa],[('each draw builds new lists',B),('context models keep the list they are given',Fa)]))
L.append(p('C07','Requested size bounds hold on every delivered geometry',
 'Whatever the randomness, history and faults, every delivered geometry respects every minimum and maximum given for it: numbers of points, segments, contours, polygons and holes, and numbers of vertices of contours, borders and holes, at every nesting level, including one-sided bounds, equal bounds and bounds of zero.',
 ['inputs','configurations','histories'],'every combination of size arguments, coordinate strategies and choice sequence',
 'The tests sample a few argument combinations from default distributions; the planning of sub-sizes and the carving of contours depend on the coordinates and on choices.',[B,Fa,Co],[('size filters after construction',Co),('size planning: to_point_counts, to_hole_sizes, to_size_strategy',B)]))
L.append(p('C08','Coordinates come only from the matching coordinate strategy',
 'Every abscissa in a delivered geometry is a value that the abscissa strategy yielded during that very draw and every ordinate one that the ordinate strategy yielded (the abscissa strategy when none is given), except in contours and segments which may be synthesised, where each coordinate lies between the least and the greatest value so yielded. The numeric type of coordinates is the one the strategies yield.',
 ['inputs','configurations','histories','schedules'],'every strategy, pair of coordinate strategies, choice sequence and interleaving with other draws',
 'The tests check ranges and types against wide intervals only, never the set of values actually yielded, so swapped axes over equal ranges, leaked values of an earlier draw or synthesised coordinates go unnoticed.',[B,Fa],[('points are built by indexing drawn coordinates',B),('convex synthesis clamps to drawn minimum and maximum',Fa)]))
L.append(p('C09','Every contour is a simple, strict, counter-clockwise polygon outline',
 'Every contour delivered by any contour strategy (general, convex, concave, star-shaped, triangular, rectangular) has at least three distinct vertices, no three consecutive vertices on a line, edges which meet only at the vertices shared by neighbours, and counter-clockwise orientation.',
 ['inputs','configurations','histories'],'every choice sequence, size bounds and exact rational coordinate strategies, including small grids full of collinear points',
 'The tests sample random fractions in which collinear and coincident configurations almost never occur, and check simplicity through the same library family that the code uses.',[Fa,Tr,Su,B],[('chi-algorithm carving with collinearity accounting',Fa),('contour compression',Fa)]))
L.append(p('C10','Contour classes keep their promise: convex, concave, star, triangle, rectangle',
 'Convex contours have only left turns, concave contours at least one right turn, star-shaped contours are entirely visible from their centroid, triangular contours have exactly three vertices, and rectangular contours are axis-parallel rectangles with four distinct corners in counter-clockwise order.',
 ['inputs','configurations','histories'],'every choice sequence, size bounds and exact rational coordinate strategies',
 'The tests sample well-spread random coordinates; class membership depends on degenerate configurations and on random decisions inside the construction.',[Fa,B,Co],[('Valtr construction followed by convex hull',Fa),('orientation filters',Co),('iterated centroid and angular sorting',Fa)]))
L.append(p('C11','Polygons are valid: border and holes simple, holes inside and apart',
 'Every delivered polygon has a simple strict counter-clockwise border and simple strict clockwise holes, every hole lies within the border, and the border and the holes and the holes among themselves neither cross nor overlap nor nest (touching at points is allowed).',
 ['inputs','configurations','histories'],'every choice sequence, size bounds and exact rational coordinate strategies',
 'The tests check holes and border separately for crossings on sampled fractions; they do not check that holes lie inside the border nor that their interiors are disjoint, and the carving order depends on coordinates.',[Fa,Tr,B],[('border carving never removes a triangle whose edges cross a hole',Fa),('holes taken from interior points in sweep order',Fa)]))
L.append(p('C12','Contours of a multicontour enclose pairwise disjoint interiors',
 'The contours of every delivered multicontour are simple, strict and counter-clockwise, and the regions they enclose have pairwise disjoint interiors: contours may touch at points but never cross, overlap along an edge, coincide or nest.',
 ['inputs','configurations','histories'],'every choice sequence, size bounds and exact rational coordinate strategies, including coordinate sets with many repeated abscissae and ordinates',
 'The tests check crossing and overlapping on sampled fractions only (not nesting), where repeated coordinates are rare, so sharing a point between consecutive contours is hardly exercised.',[Fa,Co],[('sweep partition with at most one shared point',Fa),('vertical or horizontal extreme-segment test',Co)]))
L.append(p('C13','Polygons of a multipolygon are valid and have pairwise disjoint interiors',
 'Every polygon of a delivered multipolygon is a valid polygon, and any two of them have disjoint interiors: their borders may touch at points but never cross, overlap along an edge, coincide or nest.',
 ['inputs','configurations','histories'],'every choice sequence, size bounds and exact rational coordinate strategies',
 'The tests check each polygon\'s parts but relations between polygons only through crossing borders of sampled fractions.',[B,Fa,Co],[('coordinate ranges of consecutive polygons are disjoint or share one coordinate',B)]))
L.append(p('C14','Components of a mix are valid and never interfere',
 'Every delivered mix has at least two non-empty components; its points are distinct, its segments are non-degenerate and neither cross nor overlap, its polygons are valid with pairwise disjoint interiors, no point lies on a segment or in or on a polygon, and no segment crosses or overlaps a polygon border or runs through a polygon\'s interior.',
 ['inputs','configurations','histories'],'every choice sequence, combination of component bounds and exact rational coordinate strategies',
 'The tests check some pairs of components on sampled fractions; the order in which components are laid out, batch splits and shared coordinates are choices they rarely combine.',[B,Co],[('components are laid out along one axis in disjoint coordinate ranges, sharing one coordinate when safe',B)]))
L.append(p('C15','Points, segments, boxes and multis are non-degenerate and proper',
 'Every delivered segment has distinct endpoints, every box has minimum strictly below maximum on both axes, every multipoint consists of distinct points, and the segments of every multisegment are non-degenerate and pairwise neither cross nor overlap (touching is allowed).',
 ['inputs','configurations','histories'],'every choice sequence, size bounds and exact rational coordinate strategies with many coincident values',
 'The tests sample wide fractions where coincidence and collinearity are rare.',[B,Co,Ut],[('uniqueness and non-degeneracy filters',B),('crossing filter over drawn segments',Co)]))
L.append(p('C16','Test sessions over the strategies are reproducible and survive storage faults',
 'A property-based test session over any strategy, run with the same seed and the same stored examples, draws the same examples and reports the same minimal failing example; a failing example saved by one session fails again when a later session replays it, also when the stored entries were partly lost, torn, duplicated or corrupted in between. No session ever ends with a flakiness or internal error, and the minimal example it reports is a valid geometry within the requested bounds.',
 ['histories','fault_sequences','crash_points'],'every strategy, session seed, failing condition, and sequence of storage faults and restarts between sessions',
 'The tests run successful sessions only: no failing test, no shrinking, no example database, no restart.',[B,Fa,Pl],[('all randomness through the choice sequence',B),('results rebuilt from choices during shrinking and replay',Fa)],
 [dict(name='example database',meaning='durable state of a session',where='hypothesis ExampleDatabase')]))
L.append(p('C17','Satisfiable requests are served and the whole size range stays reachable',
 'For a request whose bounds can be met from an ample coordinate strategy, repeated draws with fresh randomness deliver a geometry within a bounded number of attempts, also right after a burst of faults. Every size between the requested minimum and maximum, and every optional component (holes, empty and non-empty parts of a mix), keeps being delivered with non-vanishing frequency.',
 ['histories','fault_sequences','configurations'],'every strategy and small size bounds, over long runs of draws with faults followed by a fault-free suffix',
 'The tests accept any rejection rate below the health-check threshold and never ask whether a size or a component inside the bounds still occurs.',[B,Fa],[('size planning and filters',B)]))
L.append(p('C18','Impossible or suspicious size arguments are diagnosed at construction',
 'Creating a strategy whose maximum is below the geometric minimum or below the requested minimum raises ValueError, and a minimum below the geometric minimum is reported with HypothesisWarning and raised to the geometric minimum.',
 ['inputs'],'every combination of size arguments',
 'The tests sample some invalid combinations.',[Pl],[('_validate_sizes and its relatives',Pl)],obs=['exceptions and warnings of hypothesis_geometry.planar.* calls']))
L.append(p('C19','Geometries are built by and for the strategy\'s own context, never another',
 'Every geometry delivered by a strategy, and every part nested in it (points, segments, contours, polygons, components), is an instance of exactly the classes of the context the strategy was created with, and only that context\'s functions take part in building it. Several contexts (with other geometry classes or functions) may be in use in one process, in any order and from several threads: the geometries of one never contain parts of another, and which context is used never changes which coordinates, sizes or order a given choice sequence produces.',
 ['configurations','histories','schedules'],'every set of contexts in one process, every strategy, history and interleaving of their draws',
 'The tests use one context for the whole session, so anything remembered from, or taken from, another context is invisible.',[Pl,B,Fa,Tr,Su],[('the context is passed explicitly through every layer',B)]))
L.append(p('C20','A part drawn inside a larger example equals the same draw made on its own',
 'However a strategy is embedded - drawn interactively several times in one test case, or inside tuples, lists, one_of, flatmap or builds - each geometry it contributes is determined by the slice of the choice sequence it consumed, exactly as if that slice had been drawn on its own: earlier and later siblings, their failures or their modification by the caller never influence it, and siblings never share a mutable part.',
 ['histories','schedules','fault_sequences'],'every way of composing strategies in one test case, every choice sequence, fault and in-place modification between the parts',
 'The tests draw a single geometry per test case; compositions, and the same strategy drawn several times in one test case, never occur.',[B,Fa,Pl],[('strategies carry no state of the test case',B),('each draw builds its own values',Fa)]))
with open('/verif/properties.jsonl','w') as f:
    for x in L: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,S)
