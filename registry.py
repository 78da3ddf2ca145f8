"""The properties and what decides each of them."""
def nat(file, oracle, cases, what='', **kw): return dict(file=file, oracle=oracle, cases=cases, what=what, **kw)
def T(mod, *names): return [('specs.' + mod, 'task_' + n) for n in names]

NA = {}

PROPS = {
 'B01': dict(title='Curve evaluation', tasks=T('mapping', 'calculate'),
             native=[nat('mapping', 'eval', 30000, 'mypaint_mapping_calculate against the definition of the curve, random curves and inputs')]),
 'B02': dict(title='Curve storage', tasks=T('mapping', 'set_n', 'set_point', 'base', 'new'),
             native=[nat('mapping', 'store', 4000, 'random histories of the setters against a plain model')]),
 'B03': dict(title='Invalidated regions', tasks=T('rect', 'point', 'rect', 'dab', 'end_atomic', 'prepare') + T('symmetry', 'draw_dab'),
             native=[nat('surface', 'batch', 400, 'sequences of strokes in transactions; every modified pixel is inside a reported rectangle')]),
 'B04': dict(title='Operation queue', tasks=T('queue', 'fifo', 'tilemap', 'add', 'pop', 'resize', 'remove_duplicates') + T('rect', 'end_atomic') + T('dab', 'process_tile'),
             native=[nat('queue', 'fifo', 2000, 'fifo against a model'), nat('queue', 'map', 1000, 'tile map against a model'), nat('queue', 'queue', 800, 'operation queue against a model'),
                     nat('surface', 'batch', 300, 'batched painting equals painting one dab at a time')]),
 'B05': dict(title='Fixed surface', tasks=T('fixed', 'request', 'new') + T('dab', 'process_tile'), native=[nat('fixed', 'tiles', 2000, 'tile requests against a model'), nat('fixed', 'draw', 300, 'painting on the fixed surface against painting on an unbounded one')]),
 'B06': dict(title='Blend modes', tasks=T('blend', 'eraser_paint', 'setlum', 'normal', 'eraser', 'lockalpha', 'posterize', 'color', 'normal_paint', 'lockalpha_paint'),
             native=[nat('blend', 'all', 8000, 'exact references of all blend modes on random masks and tiles')]),
 'B07': dict(title='Composition of a dab', tasks=T('rect', 'dab') + T('dab', 'process_op', 'process_tile'), native=[nat('surface', 'ops', 600, 'alpha lock, eraser, colorize, posterize and opacity identities on whole surfaces')]),
 'B08': dict(title='Symmetry', tasks=T('symmetry', 'matrix', 'update', 'set_pending', 'draw_dab'), native=[nat('surface', 'symmetry', 400, 'symmetric painting equals painting the transformed dabs')]),
 'B09': dict(title='Colour spaces', tasks=T('color', 'rgb_to_hsv', 'hsv_to_rgb', 'hsv_round_trip', 'hsl', 'hcy', 'angles'), native=[nat('color', 'hsv', 100000, 'HSV round trips, ranges and reference'), nat('color', 'hsl', 100000, 'HSL'), nat('color', 'hcy', 100000, 'HCY'), nat('color', 'angle', 20000, 'angle helpers')]),
 'B10': dict(title='Spectral mixing', tasks=T('spectral', 'spectral', 'mix', 'mix_ends'), native=[nat('color', 'spectral', 20000, 'spectral round trip and ranges'), nat('color', 'mix', 20000, 'mix_colors against a double precision reference')]),
 'B11': dict(title='Random numbers', tasks=T('rng', 'array', 'seed', 'next'), native=[nat('rng', 'array', 1500, 'Knuth\'s ran_array against a reference'), nat('rng', 'next', 400, 'stream: range, determinism, independence of instances'), nat('rng', 'gauss', 400, 'gauss range')]),
 'B12': dict(title='Settings tables', tasks=T('settings', 'tables', 'names', 'access', 'defaults') + T('mapping', 'set_n', 'set_point', 'base'), native=[nat('settings', 'table', 1170, 'every setting, input and state against brushsettings.json', scale=1), nat('settings', 'names', 20000, 'arbitrary names'), nat('settings', 'defaults', 800, 'defaults after arbitrary histories')]),
 'B13': dict(title='Brush files', tasks=T('brushfile', 'curve', 'setting', 'file', 'string') + T('settings', 'names', 'access') + T('mapping', 'set_n', 'set_point', 'base'), native=[nat('json', 'load', 6000, 'files with known contents, well-formed and malformed'), nat('json', 'paint', 800, 'a loaded brush paints like the configured one'), nat('json', 'damage', 4000, 'damaged files')]),
 'B14': dict(title='Dab parameters', tasks=T('brush', 'decay', 'offsets', 'count', 'smudge', 'dab', 'update', 'stroke', 'stroke_skip', 'stroke_split', 'stroke_split_skip'), native=[nat('brush', 'dabs', 3000, 'random brushes and events on a recording surface')]),
 'B15': dict(title='Smudge buckets', tasks=T('brush', 'buckets', 'new', 'smudge', 'dab'), native=[nat('brush', 'bucket', 1500, 'accessors, drawing and resets against a model')]),
 'B16': dict(title='Strokes', tasks=T('brush', 'new', 'decay', 'count', 'update', 'stroke', 'stroke_skip', 'stroke_split', 'stroke_split_skip'), native=[nat('brush', 'replay', 2500, 'identical histories give identical dabs'), nat('brush', 'stroke', 3000, 'when strokes end')]),
 'B17': dict(title='Dab footprint', tasks=T('mask', 'mask', 'mask_aa', 'rr', 'rr_aa', 'opa') + T('dab', 'process_op', 'process_tile'), native=[nat('surface', 'dab', 600, 'opacity of every pixel of a dab against the documented falloff')]),
 'B18': dict(title='Colour picking', tasks=T('pick', 'legacy', 'accumulate', 'get_color', 'centre') + T('dab', 'process_tile'), native=[nat('surface', 'pick', 1000, 'picked colours against a reference average')]),
 'B19': dict(title='Lifetimes', tasks=T('life', 'brush', 'parts', 'surface', 'tiled') + T('brushfile', 'string') + T('queue', 'fifo', 'tilemap', 'add', 'pop', 'resize') + T('dab', 'process_tile'), native=[nat('life', 'brush', 1500, 'brush references'), nat('life', 'surface', 1500, 'surface references')]),
}
