"""Which harnesses decide which property, and with which assertion groups."""

CHECKS = {}


def R(h, *tags, **k):
    return dict(f='relax', h=h, tags=list(tags), **k)


def I(h, *tags, **k):
    return dict(f='intersect', h=h, tags=list(tags), **k)


def S(h, *tags, **k):
    return dict(f='body_soil', h=h, tags=list(tags), **k)


def P(h, *tags, **k):
    return dict(f='body_pos', h=h, tags=list(tags), **k)


def U(h, *tags, **k):
    return dict(f='utils', h=h, tags=list(tags), **k)


def M(h, *tags, **k):
    return dict(f='sim', h=h, tags=list(tags), **k)


ST = ['relaxed %d' % s for s in (10, 13, 14, 20, 21, 22, 31, 32, 33, 34, 40)]
LAND = ['one', 'several', 'terrain']
OUT = ['moved', 'removed']
FAR = ['far', 'border']

CHECKS['C01'] = [R('terrain_pair', 'mass', 'only', reach=ST + ['relaxed 30']), R('terrain_one', 'mass', 'only'), R('terrain_two', 'mass', 'only'), R('terrain_area', 'mass', 'only'), R('terrain_peak', 'mass', 'only'), M('far_bucket', 'mass'), M('far_blade', 'mass')]
CHECKS['C02'] = [R('body_pair', 'mass', 'only', reach=ST), R('body_one', 'mass', 'only'), R('body_two', 'mass', 'only'), M('far_bucket', 'mass'), M('far_blade', 'mass'), R('body_peak', 'mass')]
CHECKS['C03'] = [I('move_soil', 'mass'), I('body_ring', 'mass', reach=['no space']), I('body_two_columns', 'mass'), I('trapped', 'mass', reach=OUT), I('move_both', 'mass'), I('trapped_far', 'mass', reach=FAR), I('ring_far', 'mass', reach=FAR), M('far_bucket', 'mass'), M('far_blade', 'mass'), I('trapped_two', 'mass')]
CHECKS['C04'] = [S('carry', 'mass', 'stale', 'rest', reach=['warned', 'carried']), S('carry_order', 'mass'), S('carry_height', 'mass', 'stale'), M('far_bucket', 'mass'), M('far_blade', 'mass'), S('carry_both', 'mass')]
CHECKS['C05'] = [R('terrain_pair', 'rec', 'recpos'), R('body_pair', 'rec', 'recpos'), R('terrain_one', 'rec', 'recpos'), R('terrain_two', 'rec', 'recpos'), R('body_one', 'rec', 'recpos'), R('body_two', 'rec', 'recpos'),
                 I('move_soil', 'rec', 'recpos'), I('trapped', 'rec', 'recpos'), I('move_both', 'rec', 'recpos'), I('body_two_columns', 'rec'), I('trapped_far', 'rec', 'recpos'), S('carry', 'rec'), S('carry_height', 'rec'), M('far_bucket', 'rec'), M('far_blade', 'rec'), R('body_peak', 'rec', 'recpos'), I('trapped_two', 'rec', 'recpos'), S('carry_both', 'rec')]
CHECKS['C06'] = [R('terrain_pair', 'conv'), R('body_pair', 'conv'), R('terrain_one', 'conv'), R('terrain_two', 'conv'), R('body_one', 'conv'), R('body_two', 'conv'), M('far_bucket', 'conv'), M('far_blade', 'conv'), R('body_peak', 'conv')]
CHECKS['C07'] = [I('locate_intersecting', 'inter'), I('inter_near', 'inter'), I('move_soil', 'conv'), I('body_ring', 'inter', 'conv'), I('body_two_columns', 'inter', 'conv'), I('trapped', 'inter', 'conv', reach=OUT), I('move_both', 'inter', 'conv'), I('trapped_far', 'inter', 'conv'), I('ring_far', 'inter', 'conv'), M('far_bucket', 'conv'), M('far_blade', 'conv'), I('trapped_two', 'inter', 'conv')]
CHECKS['C08'] = [R('terrain_pair_near', 'flow'), R('body_pair_near', 'flow'), R('terrain_pair', 'flow', reach=ST + ['relaxed 30']), R('body_pair', 'flow', reach=ST), R('terrain_one', 'flow'), R('terrain_two', 'flow'), R('terrain_peak', 'flow'), R('body_one', 'flow'), R('body_two', 'flow'), R('body_peak', 'flow')]
CHECKS['C09'] = [R('terrain_one', 'eq'), R('terrain_two', 'eq'), R('terrain_peak', 'eq'), R('body_one', 'eq'), R('body_two', 'eq'), M('far_bucket', 'eq'), M('far_blade', 'eq'), R('body_peak', 'eq')]
CHECKS['C10'] = [R('terrain_check', 'status'), R('body_check', 'status'), R('locate_unstable', 'locate'), R('locate_area', 'locate'), R('terrain_near', 'status'), R('body_near', 'status'), R('locate_near', 'locate')]
CHECKS['C11'] = [R('terrain_area', 'area', 'only'), R('terrain_one', 'area', 'only'), R('terrain_two', 'area', 'only'), R('body_one', 'area', 'only'), M('step_bucket', 'uarea'), M('step_blade', 'uarea'), M('far_bucket', 'uarea'), M('far_blade', 'uarea'), R('body_peak', 'only')]
CHECKS['C12'] = [P('include', 'union', reach=['third']), P('include_near', 'union')]
CHECKS['C13'] = [P('update_body', 'union')]
CHECKS['C14'] = [P('line', 'line'), P('line_thin', 'line')]
CHECKS['C15'] = [P('rectangle', 'wall'), P('triangle', 'wall'), P('rectangle_large', 'wall'), P('triangle_large', 'wall'), P('rectangle_steep', 'wall'), P('triangle_steep', 'wall')]
CHECKS['C16'] = [P('bucket', 'foot'), P('blade', 'foot'), P('bucket_turn', 'foot', reach=['turned']), P('blade_turn', 'foot', reach=['turned']), M('far_bucket', 'foot'), M('far_blade', 'foot')]
CHECKS['C17'] = [U('quat_mul', 'quat'), U('quat_rot', 'quat'), U('quat_back', 'quat'), U('angles_near', 'quat'), U('angles', 'quat', quick=dict(time=90))]
CHECKS['C18'] = [U('frame', 'frame')]
CHECKS['C19'] = [U('corners', 'corner'), U('corners_turn', 'corner'), U('normal', 'corner')]
CHECKS['C20'] = [U('movement', 'move', reach=['skipped', 'update', 'large']), U('movement_first', 'move'), U('movement_turn', 'move', reach=[k + ' %d' % c for k in ('low', 'high') for c in range(6)]), U('skip', 'move')]
CHECKS['C21'] = [U('volume', 'volume', reach=['ok', 'bad']), U('check_both', 'volume')]
CHECKS['C22'] = [U('soil', 'soilcheck', reach=['ok', 'bad']), U('check_both', 'soilcheck')]
CHECKS['C23'] = [U('make_grid', 'make', reach=['grid']), U('make_grid_near', 'make', reach=['near']), U('make_body', 'make', reach=['body']), U('make_param', 'make', reach=['param'])]
CHECKS['C24'] = [M('init', 'init')]
CHECKS['C25'] = [M('write_soil', 'write', reach=['soil', 'none']), M('write_body', 'write', reach=['bucket', 'blade']), M('write_all', 'write'), M('write_many', 'write', reach=['many'])]
CHECKS['C26'] = [S('carry', 'land', 'pose', reach=LAND), S('carry_order', 'land', reach=['order']), S('carry_height', 'land'), S('carry_both', 'land', reach=['both'])]
CHECKS['C27'] = [M('step_bucket', 'step', reach=['its 0', 'its 1', 'its 2']), M('step_blade', 'step', reach=['its 0', 'its 1', 'its 2']), M('tilt_bucket', 'step', reach=['tilt', 'kept']), M('tilt_blade', 'step', reach=['tilt', 'kept']), M('history_bucket', 'step', reach=['soil', 'moved 1']), M('history_blade', 'step', reach=['soil', 'moved 1']), M('far_bucket', 'step'), M('far_blade', 'step')]
CHECKS['C28'] = [I('locate_intersecting', 'area'), I('body_ring', 'area', reach=['no space']), I('body_two_columns', 'area'), I('move_soil', 'area'), I('trapped', 'area', reach=OUT), I('move_both', 'area'), I('trapped_far', 'area', reach=FAR), I('ring_far', 'area', reach=FAR), I('trapped_two', 'area')]
CHECKS['C29'] = [I('move_soil_near', 'near'), I('ring_near', 'near'), I('untouched', 'near'), I('body_ring', 'near'), I('move_soil', 'near'), I('trapped', 'near', reach=OUT), I('trapped_far', 'near', reach=FAR), I('ring_far', 'near', reach=FAR), I('trapped_two', 'near', reach=OUT)]

LAT = 'heights are multiples of 1/8 (= the cell height), cell width 1/4, tolerance 2^-17'
BOUNDS = {
    'terrain_near': 'as terrain_check with heights +-8 cells, each height moved off its multiple of the cell height by up to 2^-20 (the tolerance is 2^-17)',
    'body_near': 'as body_check with heights +-8 cells, each height moved off its multiple of the cell height by up to 2^-20 (the tolerance is 2^-17)',
    'locate_near': 'one column and its four neighbours, heights +-20 cells moved off their multiples by up to 2^-20, any slope limit of 0..10 cells',
    'untouched': '3x5 grid, two neighbouring columns of any layout with any soil and records and no intersection, heights +-24 cells, on their multiples or (first column) up to 2^-20 off; body area over the whole grid',
    'terrain_pair_near': 'as terrain_pair, heights +-12 cells moved off their multiples by up to 2^-20, against the outcome for the multiples; directions +x and +y in the quick tier',
    'body_pair_near': 'as body_pair, heights +-12 cells moved off their multiples by up to 2^-20, against the outcome for the multiples; one direction per source layout in the quick tier',
    'move_soil_near': 'as move_soil in one diagonal direction (all 8 in the thorough tier), heights +-12 cells moved off their multiples by up to 2^-20, against the outcome for the multiples',
    'ring_near': '7x9 grid, one intersecting column enclosed by 8 body columns of which two have room for 0..6 cells, heights moved off their multiples by up to 2^-20, against the outcome for the multiples',
    'far_bucket': 'two steps on a grid of 281 cells in one direction, far from its centre, compared with the same steps at the centre of a 17x19 grid; two terrain columns of -2..10 cells, 3 places, 2 sequences of poses',
    'far_blade': 'as far_bucket, for a blade',
    'inter_near': 'one column of any layout, heights +-8 cells moved off their multiples by up to 2^-20',
    'include_near': 'as include, with layer and extent heights moved off their multiples by up to 2^-20',
    'terrain_check': '3x5 grid, one neighbour column of any of the 5 body layouts with any soil presence, heights up to +-64 cells, minimum height -80..300 cells; ' + LAT,
    'body_check': '3x5 grid, source layer 0 or 2, one neighbour column of any layout, heights up to 64 cells; ' + LAT,
    'locate_unstable': '5x5 grid, one active cell and its four neighbours, heights +-40 cells, limit 0..20 cells',
    'locate_area': '(also in the far corner of grids 281 cells long) 5x7 grid, active area 2x2, all 12 surrounding heights symbolic (+-3 cells)',
    'terrain_pair': 'one source and one receiving column (5 layouts x soil presence), 4 directions, 4 body orientations, symbolic body position, heights up to +-200 cells, repose limit 0..64 cells; ' + LAT,
    'body_pair': 'one source layer (single layers, lower or upper of two; one or two records) and one receiving column (5 layouts x soil), heights up to +-200 cells, repose limit 0..64 cells; ' + LAT,
    'terrain_one': 'whole RelaxTerrain: one active cell, one neighbour of any layout, others bare; quick: 3 angles and the first random draw arbitrary; thorough: 5 angles and more draws',
    'terrain_peak': 'whole RelaxTerrain: one active cell (-4..20 (40) cells) above four bare neighbours (+-8 cells), 2 (5) angles, every visiting order',
    'body_peak': 'whole RelaxBodySoil: one layer of soil (1..20 (40) cells) above four lower columns (+-8 cells; quick: three of them symbolic), bare or with a layer of their own, 2 (5) angles, one visiting order',
    'terrain_two': 'whole RelaxTerrain: two adjacent active cells, heights +-16 cells, first 2 (5) random draws arbitrary',
    'terrain_area': 'whole RelaxTerrain: 9x11 grid, 3 (4) of 6 positions raised by 0..6 cells, 2 active areas, buffers 2..4',
    'body_one': 'whole RelaxBodySoil: one source column (4 kinds, 1-2 records), one neighbour, 4 directions; quick: fixed visiting order and one layout per direction; thorough: all layouts, 2 arbitrary draws, 5 angles',
    'body_two': 'whole RelaxBodySoil: two adjacent columns with soil and a third neighbour, 1 (3) arbitrary draws',
    'locate_intersecting': '5x7 grid, one column of any layout anywhere in the area, a second one anywhere in the grid, heights +-64 cells',
    'body_ring': 'whole MoveIntersectingBody: one intersecting column in a 5x7 grid (centre and two border positions), rings of full body columns, two neighbours of arbitrary layout; 1 (3) arbitrary random draws',
    'body_two_columns': 'whole MoveIntersectingBody: two adjacent intersecting columns, one neighbour with limited room',
    'move_soil': 'one MoveBodySoil call: any two-layer source, any neighbour layout, 8 directions, heights up to 200 cells',
    'trapped': 'whole MoveIntersectingBodySoil: one trapped column (centre, two border positions), 1-2 records, three kinds of surroundings, chain of two columns in one direction',
    'trapped_two': 'whole MoveIntersectingBodySoil: one trapped column, two ways out of up to two columns each (5 (6) kinds) among the 8 directions, any heights, either way first',
    'move_both': 'whole MoveIntersectingCells: trapped soil and terrain in the body at the same time, one neighbour of any layout',
    'trapped_far': 'whole MoveIntersectingBodySoil: 5x11 and 11x5 grids, one trapped column with two records, the only open column 1..5 cells away along the longer or 1..3 along the shorter axis, or none up to the border',
    'ring_far': 'whole MoveIntersectingBody: 5x11 and 11x5 grids, one intersecting column, the only room (an open column or below a body) 1..6 cells away in any of 8 directions, or none',
    'carry': 'whole UpdateBodySoil: 1-2 records in one column, up to two body columns among the nine cells of the landing place, translations up to a third of a cell (thorough: more), quarter turns; positions multiples of 1/64',
    'carry_both': '2-3 records of both layers of one column in either order, each at its own place in the cell, two surfaces of any height in one of 3 columns, translation below a quarter of a unit or a quarter turn (thorough: a tilt)',
    'carry_order': 'one record, surfaces of any height within 3 cells in any two of the nine columns around the new location, any motion below half a cell',
    'carry_height': 'one record whose height differs from whole cells by up to 5% of a cell',
    'include': 'any existing pair of layers (5 arrangements), new extent anywhere, heights +-60 cells',
    'update_body': '5 shapes of sorted wall cells, any existing layers in one of their columns, symbolic grid height origin',
    'line': 'segments of 8 (18) directions, start anywhere inside a cell (1/64 of a cell resolution, symbolic), 13x17x64 grid',
    'line_thin': 'segments almost parallel to each of the three faces, which cross a face by 1/1000 of a cell, start symbolic',
    'rectangle_steep': '3 (4) steep rectangles, start anywhere inside a cell, off the cell borders and off the corners of columns',
    'triangle_steep': '3 (4) steep triangles, start anywhere inside a cell, off the cell borders and off the corners of columns',
    'rectangle': 'rectangles of 3 (8) shapes (horizontal, vertical, inclined), start anywhere inside a cell, off the cell borders',
    'triangle': 'triangles of 4 (8) shapes, start anywhere inside a cell, off the cell borders',
    'rectangle_large': 'inclined rectangles with sides of 6 cells turned by about 45 degrees, each vertex extreme in each direction, mirrored, start symbolic along one of the axes',
    'triangle_large': 'inclined triangles of 7 cells, each vertex in each role, four turns, mirrored, start symbolic along one of the axes',
    'bucket': 'one bucket shape, 4 orientations, 8 (14) lines of 32 positions (one symbolic parameter each), stale previous pose; near the grid borders with the area cut at both limits (2 (8) lines); vertices on cell borders with symbolic position',
    'blade': 'one blade shape, 4 orientations, 8 (14) lines of 32 positions, stale previous pose; near the grid borders with the area cut at both limits (2 (8) lines); vertices on cell borders with symbolic position',
    'quat_mul': 'any two quaternions with components up to 16, 1 or 1/16 (256 steps)',
    'quat_rot': 'any quaternion with a dominant component of magnitude 2..4 and the others up to 4 (steps 1/8) at 3 scales (times 1/4, 1, 4), any vector with components up to 8 (steps 1/8); agreement within 2^-12',
    'quat_back': 'quaternions and vectors as for quat_rot at 2 scales; round trip within 2^-6',
    'angles': 'any three angles up to 4 rad (steps 1/16); sine and cosine of the same argument are one unknown pair on the unit circle',
    'angles_near': 'two constant angles of 7 (8) values and one within 1/32 of a value, with all sign combinations',
    'frame': '(also far from the centre of grids 281 cells long) 5x7 grid, 9 cells, any quaternion as for quat_rot at 2 scales, body position up to 4 (steps 1/64), height up to 64 cells; direct agreement within 2^-12, round trip within 2^-6',
    'corners': '4 reference shapes, 2 body origins, 12 orientations, both body types; symbolic position up to 8 and width up to 4',
    'corners_turn': 'any turn about each of the three axes (symbolic quaternion), symbolic position; agreement within 2^-10',
    'normal': 'triangles with three or four symbolic coordinates (steps 1/2), not degenerate',
    'movement': '3 cell shapes, 2 (5) previous and new orientations, symbolic position and symbolic translation (1 axis or all three, steps 1/128 up to 1.25)',
    'movement_turn': '1 (3) cell shapes, 2 body shapes, 8 turns combined with a translation such that each of the six corners alone exceeds each limit; translation symbolic along one axis (+-1/4, steps 1/256); distances within 2^-9 of a limit are not judged',
    'movement_first': 'any first position, 4 orientations',
    'skip': 'whole Step with a translation below half a cell in any direction, two columns of any layout',
    'volume': '3x3 and 3x5 grids, up to 2 soil layers with 1-2 records of any height, also negative (steps 2^-18), cells up to a quarter of a cell off a whole number, initial volume off by -2..2',
    'soil': 'one column of any layout and any layer heights within +-6 cells, deviations of half a tolerance and of twice the tolerance',
    'check_both': 'one column, symbolic heights, initial volume off by -1..1',
    'make_grid': '8 pairs of cell sizes, grid sizes from -1/8 up to 10 cells per axis (steps 1/8)',
    'make_grid_near': '3 pairs of cell sizes, 2..4 (7) cells per axis, sizes off a multiple of the cell size by up to 2^-18',
    'make_body': 'four reference points with coordinates -1..1 (steps 1/2), width -1/2..1/2, vectors of wrong length',
    'make_param': 'angle -1/2..4 (steps 1/128), iterations -3..5, buffer -2..5',
    'init': '3 (5) grids up to 13x9 (19x23) cells, amplitude -6..6 (steps 1/64), the first draw of the permutation arbitrary, dirty previous state',
    'write_soil': '3x5 grid, symbolic heights, one column of two-layer layout with any soil, up to 3 existing result files in any combination',
    'write_body': 'symbolic position (steps 1/32) and width, 4 orientations, up to 3 existing result files in any combination, both body types',
    'write_all': '3x3 grid, two consecutive writes, up to one existing file of each kind, both body types',
    'bucket_turn': '29x33 grid, bucket of up to 5x5 cells, for each vertex and horizontal direction the tilted pose (of 1029) in which this vertex alone is the most extreme; symbolic position along the direction over a quarter of a unit (one cell); the recorded area (and every point of the walls)',
    'blade_turn': 'as bucket_turn for the blade and its 12 vertices',
    'write_many': 'results 0..n-1 of every kind exist for n of 9, 10, 11, 99, 100, 101, 999, 1000, 1001 (9999, 10000), one more existing file of any name probed; one symbolic cell',
    'step_bucket': '9x11 grid, bucket with walls of two cells, first step or second one, 3 (6) poses, 2 (3) raised terrain cells of -1..4 (-2..10) cells, up to 3 records of soil, 0..3 iterations, first (3) random draws arbitrary in one (every) configuration',
    'step_blade': 'as step_bucket for the blade',
    'tilt_bucket': '21x17 grid, bucket with an overhanging wall, 4 (6) pairs of tilted poses, soil of three symbolic heights up to 6 cells on two rows of columns, 0..1 iterations',
    'tilt_blade': 'as tilt_bucket for the blade',
    'history_bucket': '9x11 grid, 2 (3) consecutive steps of 2 (3) iterations from terrain alone with 2 (3) raised cells of -2..10 cells, 3 (6) starting poses, two sequences of poses',
    'history_blade': 'as history_bucket for the blade',
}
