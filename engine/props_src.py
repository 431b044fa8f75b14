import json
P=[]  # generates properties.jsonl
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
S='soil_simulator/'
ST=[('terrain_','soil height per cell',S+'types.hpp'),('body_','two body layers [min,max] per cell',S+'types.hpp'),('body_soil_','soil layer resting on each body layer',S+'types.hpp'),('body_soil_pos_','records of soil resting on the body',S+'types.hpp')]
p('C01','Terrain relaxation conserves soil',
 'Relaxing the terrain never creates or destroys soil: the total soil height over the whole grid (terrain plus soil resting on both body layers) is the same before and after, whatever the body layout around the unstable cells. Every amount that leaves a terrain column arrives on exactly one neighbouring column (terrain, or soil on a body layer), and no column other than the unstable one and its four neighbours changes.',
 ['inputs','schedules'],'every valid terrain/body/body-soil configuration of the cells around an unstable cell, every repose slope, every random visiting order',
 'The tests relax a few dozen hand-written columns with fixed seeds and compare a few cells; conservation is a sum over all cells for every height, layer layout and random order.',
 [S+'relax.cpp'],[('RelaxTerrain',S+'relax.cpp'),('RelaxUnstableTerrainCell',S+'relax.cpp')],ST,['terrain_ and body_soil_ after the call'])
p('C02','Relaxation of the soil resting on the body conserves soil',
 'Relaxing the soil that rests on the body never creates or destroys soil: the total soil height over the grid (terrain plus soil on both body layers) is the same before and after, for any layout of body layers and soil in the source and receiving cells and any number of soil records sharing a column.',
 ['inputs','schedules'],'every valid source column, receiving column, record split, repose slope and random visiting order',
 'Tests cover each receiving-layer case with one or two concrete heights and one record; space limits, shared columns and full/partial moves combine into many more cases.',
 [S+'relax.cpp'],[('RelaxBodySoil',S+'relax.cpp'),('RelaxUnstableBodyCell',S+'relax.cpp')],ST,['terrain_, body_soil_ after the call'])
p('C03','Resolving intersections conserves soil',
 'Moving soil that intersects a body layer (soil trapped between two layers, and terrain inside the body) keeps the total soil height over the grid unchanged. The only exception is soil for which no location can be found in any of the eight directions inside the grid, which is removed only together with a logged warning.',
 ['inputs','schedules'],'every valid layout of body layers, soil and terrain around the intersecting column, every random direction order',
 'Tests use single hand-made columns; the distance-by-distance search over eight directions with partial placement has far more outcomes than they sample.',
 [S+'intersecting_cells.cpp'],[('MoveIntersectingBodySoil',S+'intersecting_cells.cpp'),('MoveIntersectingBody',S+'intersecting_cells.cpp'),('MoveBodySoil',S+'intersecting_cells.cpp')],ST,['terrain_, body_soil_, warnings'])
p('C04','Soil carried by the moving body is conserved',
 'When the body moves, every soil record of at least one cell height is transferred in full, either onto a body layer or, if no body is found near its new location, onto the terrain together with a logged warning; the total soil height over the grid (terrain plus soil on the body) therefore equals the total before the move. After the move no soil remains stored at a location that holds no record.',
 ['inputs'],'every set of soil records consistent with the soil layers, every old/new body pose within bounds, every new body layout near the new locations',
 'Tests move one or two records with fixed poses; conservation over several records landing on shared columns, negative heights and missing bodies is not sampled.',
 [S+'body_soil.cpp'],[('UpdateBodySoil',S+'body_soil.cpp')],ST,['terrain_, body_soil_, body_soil_pos_ after the call'])
p('C05','Soil records always match the soil layers',
 'After relaxing the terrain, relaxing body soil, resolving intersections or moving the body, the soil thickness on each body layer of each cell equals the sum of the heights of the soil records of that cell and layer, and no record has a negative height. Each new record carries the position of its column base expressed in the body frame.',
 ['inputs','schedules'],'every valid pre-state whose records match the layers, every random order',
 'The tests check the records they expect at a few cells; the correspondence must hold at every cell after every operation and is only checked at run time by an optional diagnostic.',
 [S+'relax.cpp',S+'intersecting_cells.cpp',S+'body_soil.cpp'],[('RelaxUnstableTerrainCell',S+'relax.cpp'),('RelaxUnstableBodyCell',S+'relax.cpp'),('MoveBodySoil',S+'intersecting_cells.cpp'),('UpdateBodySoil',S+'body_soil.cpp')],ST,['body_soil_ vs body_soil_pos_'])
p('C06','Relaxation preserves the layer conventions',
 'Starting from a state that satisfies the documented conventions (terrain not inside the body, body soil resting exactly on its body layer and not below it, soil of the lower layer not entering the upper layer, no body soil without body), relaxing the terrain or the soil on the body leaves a state that satisfies them, and never changes the body layers themselves.',
 ['inputs','schedules'],'every valid layer layout and height assignment around the relaxed cell, every random order',
 'Tests compare chosen cells in chosen cases; the conventions must survive every combination of available space, partial avalanche and layer order.',
 [S+'relax.cpp'],[('RelaxTerrain',S+'relax.cpp'),('RelaxBodySoil',S+'relax.cpp')],ST,['conventions listed for CheckSoil in utils.cpp'])
p('C07','No soil is left inside the body after intersections are resolved',
 'After intersections are resolved, the terrain is nowhere above the bottom of a body layer inside the body area, and soil resting on the lower of two body layers does not enter the upper layer. Body layers are not changed and soil on the body still rests exactly on its layer. Differences within the tolerance do not count as intersections.',
 ['inputs','schedules'],'every valid body layout with arbitrary terrain heights and arbitrary soil heights on the lower layer, every random direction order',
 'Tests exercise one intersecting column at a time; soil pushed from one column into another that is itself intersecting depends on order and heights.',
 [S+'intersecting_cells.cpp'],[('MoveIntersectingCells',S+'intersecting_cells.cpp'),('LocateIntersectingCells',S+'intersecting_cells.cpp')],ST,['terrain_ vs body_, body_soil_ vs body_'])
p('C08','Avalanches between neighbours reach the repose slope and never overshoot',
 'When terrain avalanches onto a neighbouring column, soil only moves from the higher to the lower column, the receiving column never ends more than one cell height above what equalises the pair at the repose slope, and if nothing limits the receiving space the remaining height difference is within the repose limit (rounded to cells). When a body limits the space, exactly the available space is filled; terrain stays on multiples of the cell height. Rounding errors well within the tolerance do not change the amount that moves by more than the tolerance.',
 ['inputs'],'every pair of column heights, every repose limit, every body bottom or layer gap above the receiving column',
 'Tests verify individual numbers such as 0.8 -> 0.5/0.3; the slope bound, rounding to cells and space limit must hold for all heights.',
 [S+'relax.cpp'],[('RelaxUnstableTerrainCell',S+'relax.cpp'),('RelaxUnstableBodyCell',S+'relax.cpp')],ST,['heights of the two columns'])
p('C09','Stable soil is left alone and equilibrium is reported truthfully',
 'If every cell of the active area differs from its four neighbours by no more than the repose limit, relaxing the terrain changes nothing and reports equilibrium. If relaxation reports equilibrium, no soil was moved by the terrain or body-soil relaxation and neither terrain of the active area nor soil on the body can still avalanche; if any soil was moved, equilibrium is reported as not reached.',
 ['inputs','schedules'],'every terrain and body layout in the active area, every repose limit, every random order',
 'Tests look at single states; the equivalence between the flag and the absence of movement is over all states.',
 [S+'relax.cpp'],[('RelaxTerrain',S+'relax.cpp'),('LocateUnstableTerrainCell',S+'relax.cpp'),('RelaxBodySoil',S+'relax.cpp')],[('equilibrium_','whether no movement is needed',S+'types.hpp')],['equilibrium_, terrain_, body_soil_'])
p('C10','Instability detection selects the right receiving surface',
 'For any pair of neighbouring columns, soil is declared unstable exactly when the surface it would land on (terrain below a body that starts above the terrain, even when nothing else fits there; else the soil or body surface that is on top of the filled space; a zero-thickness soil layer at height zero counts as absent) is lower than the allowed minimum height, and the reported receiving surface is that one. Cells are listed as potentially unstable exactly when one of the four neighbours is lower than the repose limit allows. Heights that rounding leaves slightly off a multiple of the cell height (well within the tolerance) lead to the same decisions as the multiples.',
 ['inputs'],'every presence/absence of the two body layers and their soil in either vertical order, every height (including zero and negative), every minimum height',
 'Each of the dozen receiving situations is tested with a few heights; borderline heights, layer order and zero-height layers are not.',
 [S+'relax.cpp'],[('CheckUnstableTerrainCell',S+'relax.cpp'),('CheckUnstableBodyCell',S+'relax.cpp'),('LocateUnstableTerrainCell',S+'relax.cpp')],ST,['returned status code'])
p('C11','Soil updates stay inside the active area, which tracks every change',
 'Terrain relaxation starts only from cells of the active area, changes only those cells and their direct neighbours, and reports as relaxation area the bounding box of the cells found unstable extended by the cell buffer and clamped to the grid; if no cell is unstable the previous area is kept. In a simulation step the active area is the union of the body area and the relaxation area.',
 ['inputs','schedules'],'every position of unstable cells in the active area, every buffer, every random order',
 'Tests check the area for single-cell examples at the grid centre.',
 [S+'relax.cpp',S+'soil_dynamics.cpp'],[('RelaxTerrain',S+'relax.cpp'),('SoilDynamics::Step',S+'soil_dynamics.cpp')],[('relax_area_','bounding box of relaxed cells',S+'types.hpp'),('impact_area_','active area',S+'types.hpp')],['relax_area_, impact_area_, cells outside the area'])
p('C12','Adding a body position yields the union of the layers',
 'Adding a vertical body extent to a cell gives, whenever it can be represented with two layers, exactly the union of the extents already present and the new one (touching extents are merged), with no layer lost or duplicated and other cells untouched. When a third separate extent cannot be represented it is merged into the closest layer, so that the extents already present and the new one are always covered. Extents that touch up to the tolerance count as touching.',
 ['inputs'],'every existing pair of layers (absent, either order, any heights) and every new extent',
 'Tests cover listed arrangements with fixed heights; the union must hold for every relative position, order and touching case.',
 [S+'body_pos.cpp'],[('IncludeNewBodyPos',S+'body_pos.cpp')],[('body_','two body layers',S+'types.hpp')],['body_ of the cell'])
p('C13','A body wall covers each column from its lowest to its highest cell',
 'Given the sorted cells of one body wall, each horizontal position listed receives one body extent going from the bottom of its lowest listed cell to the top of its highest listed cell, merged with the layers already there; horizontal positions that are not listed are not changed.',
 ['inputs'],'every sorted list of wall cells within bounds, every previous body layout',
 'Tests use fixed lists; grouping at list boundaries, single-cell columns and merging must hold for any list.',
 [S+'body_pos.cpp'],[('UpdateBody',S+'body_pos.cpp')],[('body_','two body layers',S+'types.hpp')],['body_ over the grid'])
p('C14','Rasterised lines cover the segment without gaps',
 'The cells returned for a segment start at the cell of the first point, end at the cell of the last point and move by one cell along one axis at a time; every returned cell is crossed by the segment and every point of the segment lies in (or within a small tolerance of) a returned cell. End points exactly on a cell border are ambiguous by documentation and excluded.',
 ['inputs'],'every position of segments of given directions (axis-aligned, planar, diagonal, short and long) relative to the grid',
 'Tests list expected cells for a handful of segments.',
 [S+'body_pos.cpp'],[('CalcLinePos',S+'body_pos.cpp')],[],['returned list of cells'])
p('C15','Rasterised walls cover the whole rectangle or triangle',
 'The cells returned for a rectangular or triangular wall cover it: every point of the wall lies, in the column containing it, between the lowest and the highest returned cell of that column, and every returned cell is crossed by the wall (up to a small tolerance). Walls with a vertex exactly on a cell border or an edge exactly through a column corner are ambiguous by documentation and excluded.',
 ['inputs'],'every position of walls of given shapes (horizontal, inclined, vertical) relative to the grid',
 'Tests list expected cells for a few walls placed at fixed positions.',
 [S+'body_pos.cpp'],[('CalcRectanglePos',S+'body_pos.cpp'),('CalcTrianglePos',S+'body_pos.cpp'),('DecomposeVectorRectangle',S+'body_pos.cpp'),('DecomposeVectorTriangle',S+'body_pos.cpp')],[],['returned list of cells'])
p('C16','The body footprint is recomputed from the new pose only',
 'After the body position is computed, body layers are present exactly in the cells crossed by the walls of the body at its new pose, no layer of the previous pose remains, and the body area contains every cell holding a body layer, extended by the cell buffer and clamped inside the grid. A vertex lying on a cell border is assigned to the inner side of the body, so that a body whose vertices lie on cell borders occupies nothing outside its bounding box. Terrain and soil are not touched.',
 ['inputs','histories'],'every previous body layout inside the previous body area, every body translation within bounds for a set of orientations, both body types, every cell buffer',
 'Tests check a few poses starting from an empty grid.',
 [S+'body_pos.cpp'],[('CalcBodyPos',S+'body_pos.cpp')],[('body_','two body layers',S+'types.hpp'),('body_area_','bounding box of the body',S+'types.hpp')],['body_, body_area_'])
p('C17','Quaternion algebra is correct',
 'Multiplying quaternions follows the Hamilton product; rotating a vector by a (not necessarily normalised) non-zero quaternion applies the documented rotation conj(q) p q / |q|^2, hence preserves length and is undone by the conjugate quaternion; both up to floating-point rounding. Converting ZYX Euler angles gives the corresponding unit quaternion with non-negative scalar part.',
 ['inputs'],'every quaternion and vector within the bounds; every triple of angles through every value of their half-angle sines and cosines',
 'Tests evaluate a few quaternions; the identities are polynomial in all components.',
 [S+'utils.cpp'],[('MultiplyQuaternion',S+'utils.cpp'),('CalcRotationQuaternion',S+'utils.cpp'),('AngleToQuat',S+'utils.cpp')],[],['returned vectors'])
p('C18','Body-frame positions map back to the cell they came from',
 'Expressing the centre of a cell at a given height in the body frame and transforming it back with the pose of the body gives the original position up to floating-point rounding, for every cell, height and body pose.',
 ['inputs'],'every cell, height, body translation and non-zero orientation within bounds',
 'Tests check single poses; soil records depend on this round trip for every pose.',
 [S+'utils.cpp'],[('CalcBodyFramePos',S+'utils.cpp'),('CalcRotationQuaternion',S+'utils.cpp')],[],['returned position'])
p('C19','Body corners form the rigidly moved reference shape',
 'The six corners computed for a pose are the three reference points rotated and translated by that pose, each shifted by half the body width to the right and to the left along the unit normal of the body side: right and left corners of a pair are exactly one body width apart along that normal and their midpoint is the moved reference point.',
 ['inputs'],'every translation and every reference shape and width within bounds, for every orientation in the encoded set',
 'Tests compare a few poses of one body.',
 [S+'utils.cpp'],[('CalcBodyCornerPos',S+'utils.cpp'),('CalcNormal',S+'utils.cpp')],[],['returned corners'])
p('C20','Small body movements are skipped without side effects',
 'A simulation step is skipped exactly when no body corner moved by at least half of the smallest cell dimension since the last soil update; a skipped step reports that it was skipped and leaves terrain, body, soil and recorded pose untouched. A warning about too large a movement is logged exactly when some corner moved by more than two cells.',
 ['inputs'],'every translation between the two poses, every cell size ratio, corner motions due to rotation for the encoded orientations',
 'Tests try a few movements; the threshold must hold for the maximum over all six corners and whichever cell dimension is smaller.',
 [S+'utils.cpp',S+'soil_dynamics.cpp'],[('CheckBodyMovement',S+'utils.cpp'),('SoilDynamics::Step',S+'soil_dynamics.cpp')],[],['return value, warnings, state'])
p('C21','The volume diagnostic is exact',
 'The volume check succeeds exactly when, at every cell and layer, the soil records add up to the soil thickness within tolerance, and the number of soil cells in the terrain plus on the body equals the given initial number; it reports a failure with a warning otherwise and never modifies the state.',
 ['inputs'],'every terrain and soil assignment (negative, zero and positive heights) and every set of records within bounds',
 'Tests feed a few consistent and inconsistent states.',
 [S+'utils.cpp'],[('CheckVolume',S+'utils.cpp')],ST,['return value'])
p('C22','The convention diagnostic is exact',
 'The soil check succeeds exactly when every documented convention holds in every cell of the body area: no terrain inside the body, minimum below maximum heights, body layers separate, body soil not inside the other body layer, soil resting on its own present layer. It never modifies the state.',
 ['inputs'],'every combination of presence and heights of the nine height fields of a cell in the body area',
 'Tests break one convention at a time with fixed heights; both missing detection and false alarms depend on the relation of all heights.',
 [S+'utils.cpp'],[('CheckSoil',S+'utils.cpp')],ST,['return value'])
p('C23','Invalid configurations are rejected and valid ones define the grid exactly',
 'Constructing a grid, body or simulation parameters with an invalid value (non-positive sizes, cells larger than the grid, cells taller than wide, coincident reference points, wrong vector sizes, angle outside [0, pi/2], negative iterations, buffer below 2) is rejected with an exception, and every valid value is accepted. An accepted grid whose size is a multiple of the cell size is centred with an odd number of columns, has cell coordinates spaced by the cell size and matching cell area and volume; body reference points are stored relative to the origin; initial outputs are empty with areas inside the grid.',
 ['configurations'],'every combination of constructor arguments within bounds',
 'Tests try one bad value per argument.',
 [S+'types.cpp',S+'types.hpp'],[('Grid::Grid',S+'types.cpp'),('Body::Body',S+'types.cpp'),('SimParam::SimParam',S+'types.cpp'),('SimOut::SimOut',S+'types.cpp')],[],['exceptions, members'])
p('C24','Initial terrain is quantised, bounded and complete',
 'Initialising the terrain sets every cell of the grid to a multiple of the cell height whose magnitude does not exceed the noise amplitude rounded to cells, gives a flat zero terrain for zero amplitude, reads nothing outside the permutation table and leaves the body and soil state untouched. For the same random draws the terrain is a function of the cell position only.',
 ['inputs','schedules'],'every amplitude, every permutation table entry read, every position in the unit square within bounds',
 'Tests run one seed and compare a few cells.',
 [S+'soil_dynamics.cpp',S+'utils.cpp'],[('SoilDynamics::Init',S+'soil_dynamics.cpp'),('simplex_noise',S+'utils.cpp')],ST,['terrain_'])
p('C25','Outputs are complete and never overwrite previous results',
 'Writing results creates files at the first five-digit number that is free (for the terrain and body-soil files: free for both of them) and never overwrites or appends to an existing file; the terrain file lists every cell once with its position and height, the body-soil file of the same number lists the top of every soil layer present (a dummy point if there is no soil), and the body file lists the corners of the walls at the current pose. Writing does not modify the simulation state.',
 ['inputs','histories'],'every pattern of existing result files within bounds and every presence pattern of soil layers',
 'Tests write once into a directory and read back a few lines.',
 [S+'utils.cpp'],[('WriteSoil',S+'utils.cpp'),('WriteBody',S+'utils.cpp')],[],['files written'])
p('C26','Carried soil lands on the closest body surface of its new location',
 'A soil record carried by the body is placed at the cell of its moved position if a body surface is there within one cell height, otherwise at the first of the eight neighbouring cells, ordered by the direction of motion, with such a surface, otherwise at the closest surface in height among the nine cells. It keeps its body-frame position and its height (rounded to whole cells), and the body then remembers the new pose.',
 ['inputs'],'every new body layout in the nine cells, every landing height, every direction of motion within bounds',
 'Tests place one record in a few layouts; the choice depends on all eighteen surfaces and the motion direction.',
 [S+'body_soil.cpp'],[('UpdateBodySoil',S+'body_soil.cpp')],ST,['location of records, body pose'])
p('C27','A simulation step performs its phases in order and terminates',
 'A step that is not skipped refreshes the body footprint and pose, moves carried soil, resolves intersections and then relaxes until equilibrium or until the iteration limit, whichever comes first: it never iterates more than the limit, stops at the first iteration that moves nothing, and always returns. Total soil is conserved over the whole step unless removal was announced by a warning.',
 ['inputs','schedules','histories'],'every terrain within bounds around the body, every translation, every iteration limit within bounds',
 'Tests run a few steps from flat terrain.',
 [S+'soil_dynamics.cpp'],[('SoilDynamics::Step',S+'soil_dynamics.cpp')],ST,['state after the step, number of relaxation iterations'])
p('C29','Displaced soil goes to the nearest available place, never through a wall',
 'Soil pushed out by the body is moved outwards along the eight directions, nearest cells first: a cell farther away receives terrain only when the nearer cells of all directions are full. Soil trapped between two layers is only moved to a neighbouring column if no body wall separates it from that column: it falls to the terrain next to an open column or below a layer that starts above its base, fills exactly the space left between two layers, and otherwise rests on the layer; a layer reaching above the gap it leaves through blocks it. Only the excess is moved: the column ends exactly at the bottom of the layer that cut it, columns without intersection are not changed, and receiving columns never lose soil. Rounding errors well within the tolerance do not change the outcome by more than the tolerance.',
 ['inputs','schedules'],'every valid column layout around the intersecting column, every amount of soil, every random direction order',
 'Tests check the cell that receives soil for a few layouts; nearness, walls and capacity depend on all heights and the direction order.',
 [S+'intersecting_cells.cpp'],[('MoveBodySoil',S+'intersecting_cells.cpp'),('MoveIntersectingBody',S+'intersecting_cells.cpp'),('MoveIntersectingBodySoil',S+'intersecting_cells.cpp')],ST,['terrain_, body_soil_ of the columns around the intersection'])
p('C28','Resolving intersections never leaves the grid',
 'While soil intersecting the body is being moved, only cells of the grid are read or written and the search always terminates, wherever the body lies inside the grid and however much soil has to be moved.',
 ['inputs','schedules'],'every body layout up to the border cells allowed for the body area, every soil amount and direction order',
 'Tests keep the body near the centre of a large grid.',
 [S+'intersecting_cells.cpp'],[('MoveIntersectingBody',S+'intersecting_cells.cpp'),('MoveIntersectingBodySoil',S+'intersecting_cells.cpp')],ST,['memory accesses, termination'])
P.sort(key=lambda x:x['id'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
