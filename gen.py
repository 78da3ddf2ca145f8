#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the texts below and registry.py."""
import json, os
import registry
os.chdir(os.path.dirname(os.path.abspath(__file__)))
A = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80
    A.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=None)))

prop('B01', 'A setting evaluates to its base value plus the value of each of its curves',
     'For every set of curves and every input vector, evaluating a setting returns its base value plus, for each input that has a curve, the value of the piecewise linear curve through its points (constant on a flat or vertical segment, and continued with the first or last segment outside the points). '
     'Inputs without a curve have no influence, and evaluation reads only points that were set and changes nothing.',
     ['inputs', 'configurations'], 'all numbers of points from 2 to 64, all non-decreasing x values including repeated ones, all values, all input vectors',
     'The tests evaluate a handful of small curves; the statement is about every curve length, repeated abscissae, inputs outside the range and all combinations of inputs.',
     ['mypaint-mapping.c'], [('segment search and interpolation', 'mypaint-mapping.c: mypaint_mapping_calculate')], ['mypaint_mapping_calculate', 'mypaint_brush_stroke_to'])
prop('B02', 'Curves and base values are stored exactly and independently',
     'After any sequence of edits, reading back a setting\'s base value, number of points and points returns what was last written, and an edit of one input\'s curve leaves the base value and all other inputs\' curves unchanged. '
     'The reported number of inputs in use, and with it whether the setting is constant, always equals the number of inputs with a non-empty curve.',
     ['histories', 'inputs'], 'all sequences of set_base_value, set_n and set_point calls that respect the documented preconditions',
     'Tests do one write per slot; counters that drift and slots that alias only show in longer histories with growing and shrinking curves.',
     ['mypaint-mapping.c', 'mypaint-brush.c'], [('inputs_used bookkeeping', 'mypaint-mapping.c: mypaint_mapping_set_n'), ('point storage', 'mypaint-mapping.c: mypaint_mapping_set_point')], ['mypaint_mapping_get_n', 'mypaint_mapping_get_point', 'mypaint_mapping_get_inputs_used_n', 'mypaint_mapping_is_constant', 'mypaint_brush_is_constant'],
     [('inputs_used', 'number of inputs with a non-empty curve', 'mypaint-mapping.c')])
prop('B03', 'Invalidated regions cover every pixel a transaction modified',
     'Between beginning and ending a transaction on a tiled surface, every pixel whose value changed lies inside one of the rectangles reported at the end, whatever dabs were drawn, with or without symmetry, and however many rectangles the caller asked for. '
     'The number of rectangles reported never exceeds the number the caller provided room for, and nothing is written beyond them.',
     ['inputs', 'histories', 'configurations'], 'all dabs, all symmetry configurations, all sequences of transactions, all numbers of requested rectangles',
     'Tests draw a few fixed strokes and do not compare the rectangles with the changed pixels.',
     ['mypaint-tiled-surface.c', 'mypaint-rectangle.c'], [('per symmetry dab bounding boxes', 'mypaint-tiled-surface.c: update_dirty_bbox'), ('merging into the caller\'s rectangles', 'mypaint-tiled-surface.c: mypaint_tiled_surface_end_atomic'), ('union with a point or a rectangle', 'mypaint-rectangle.c')], ['mypaint_surface_end_atomic'],
     [('bboxes', 'one rectangle per symmetry image', 'mypaint-tiled-surface.c')])
prop('B04', 'Queued paint operations are applied once each, per tile, in order',
     'Every operation queued for a tile is handed out exactly once, in the order it was queued, and queues of different tiles never mix, whatever the tile coordinates and however often the queue has grown. '
     'The list of tiles with pending work contains each tile with pending operations exactly once, so that painting in a transaction gives the same pixels as painting each dab on its own.',
     ['histories', 'inputs'], 'all interleavings of add, pop, peek, clear and growth over all tile indices',
     'Tests run one fixed sequence; loss on growth, mixed-up negative coordinates and duplicate entries depend on the history.',
     ['operationqueue.c', 'tilemap.c', 'fifo.c', 'mypaint-tiled-surface.c'], [('linked list', 'fifo.c'), ('index arithmetic and copy on growth', 'tilemap.c'), ('dirty list', 'operationqueue.c: operation_queue_add, remove_duplicate_tiles')], ['operation_queue_pop', 'operation_queue_get_dirty_tiles', 'mypaint_surface_end_atomic'])
prop('B05', 'A fixed-size surface keeps each tile apart and its border harmless',
     'On a surface of any size, a request for a tile inside it gets 64x64 pixels of its own that keep what was last written there, and a request outside gets a blank scratch tile that never shows what was written to it before. '
     'Nothing drawn can read or write outside the surface\'s memory, and pixels inside come out as on an unbounded canvas.',
     ['inputs', 'histories', 'configurations'], 'all surface sizes, all tile coordinates including negative ones, all dabs crossing the border',
     'Tests use one size and never request tiles outside or non-square surfaces.',
     ['mypaint-fixed-tiled-surface.c'], [('bounds test and address computation', 'mypaint-fixed-tiled-surface.c: tile_request_start'), ('null tile reset', 'mypaint-fixed-tiled-surface.c: tile_request_end')], ['tile requests', 'drawn pixels'])
prop('B06', 'Blend modes follow their fixed-point definitions on every mask',
     'Each blend mode changes exactly the pixels its mask selects, to the value its definition gives in fixed point arithmetic, for every mask, pixel, colour and opacity. '
     'Premultiplied channels stay within [0, 1] and, except for posterize, at most alpha, and modes that lock alpha leave it unchanged.',
     ['inputs'], 'all run-length encoded masks, all 16 bit pixel values with channels at most alpha, all colours and opacities',
     'Tests time the blend functions or compare one picture; rounding and overflow at the ends of the value ranges are never compared.',
     ['brushmodes.c'], [('blend functions', 'brushmodes.c: draw_dab_pixels_BlendMode_*')], ['tile buffers after drawing'])
prop('B07', 'Opacity, eraser, alpha lock, colorize and posterize compose as documented',
     'A dab with zero opacity changes nothing; a fully opaque hard dab gives the painted colour; erasing never raises alpha and at full strength clears; with alpha locked, alpha is unchanged everywhere. '
     'Each stage of a dab (normal, eraser, lock alpha, colorize, posterize, pigment) acts with the share its parameters assign to it, in a fixed order, and out-of-range parameters act as their nearest limit.',
     ['inputs', 'configurations'], 'all dab parameters, all canvas contents with channels at most alpha',
     'Tests do not look at pixels for these parameters or only at a few combinations.',
     ['mypaint-tiled-surface.c', 'brushmodes.c'], [('parameter clamping', 'mypaint-tiled-surface.c: draw_dab_internal'), ('choice of blend modes and opacities', 'mypaint-tiled-surface.c: process_op')], ['tile buffers after mypaint_surface_draw_dab'])
prop('B08', 'Symmetric painting paints exactly the mirrored or rotated dabs',
     'With symmetry active, each dab paints itself and its images under the configured transformations - reflection across the axis, both axes, rotations by equal parts of a turn, or all reflections and rotations of the snowflake - with the dab\'s angle and handedness transformed as well, and nothing else. '
     'With symmetry inactive only the dab itself is painted, and a changed configuration applies from the next transaction on.',
     ['inputs', 'configurations'], 'all centres, angles, symmetry types and numbers of lines, all dabs, including elliptical ones',
     'Tests compare one or two configurations with stored pictures or timings.',
     ['mypaint-symmetry.c', 'mypaint-matrix.c', 'mypaint-tiled-surface.c'], [('matrices', 'mypaint-symmetry.c: mypaint_update_symmetry_state'), ('transformed dabs', 'mypaint-tiled-surface.c: draw_dab')], ['tile buffers after drawing'])
prop('B09', 'Colour space conversions are inverse to each other and stay in range',
     'Converting any RGB colour to HSV, HSL or HCY and back returns it up to rounding, results stay in [0, 1] for every input including out-of-range hue, saturation, value, and no conversion divides by zero or returns NaN for grey, black or white. '
     'Hue, saturation, value, lightness and luma are the documented functions of RGB.',
     ['inputs'], 'all colours, including grey, saturated, black and white ones, and all parameter values outside the ranges',
     'Tests convert nothing or a handful of colours.',
     ['helpers.c'], [('conversions', 'helpers.c: rgb_to_hsv_float, hsv_to_rgb_float, rgb_to_hsl_float, hsl_to_rgb_float, rgb_to_hcy_float, hcy_to_rgb_float')], ['the conversion functions', 'colours of dabs drawn with colour dynamics'])
prop('B10', 'Pigment mixing stays within the gamut and reproduces its inputs',
     'Turning a colour into a reflectance spectrum and back returns it up to rounding, all reflectances are positive and all colours in [0, 1]. '
     'Mixing two colours with a factor gives the first at one, the second at zero, never depends on earlier mixes, weighs by opacity, and interpolates between additive and pigment mixing by the given share.',
     ['inputs', 'histories'], 'all colours, opacities, factors and shares, after any earlier mixes',
     'No test calls the mixing functions with more than a few colours.',
     ['helpers.c'], [('spectral upsampling and projection', 'helpers.c: rgb_to_spectral, spectral_to_rgb'), ('weighted geometric mean', 'helpers.c: mix_colors')], ['mix_colors', 'smudged and pigment-blended colours'])
prop('B11', 'The random stream is Knuth\'s generator, in range and private to its owner',
     'A generator\'s stream is a function of its seed alone: the same seed gives the same stream, whatever other generators do in between, and values lie in [0, 1). '
     'The stream obeys the lagged Fibonacci recurrence of its definition at every position, and array positions are never read before they are generated.',
     ['histories', 'inputs'], 'all seeds, all lengths of streams, all interleavings of several generators',
     'Tests compare the first values of one seed.',
     ['rng-double.c'], [('recurrence and refill', 'rng-double.c: rng_double_get_array, rng_double_next'), ('seeding', 'rng-double.c: rng_double_set_seed')], ['rng_double_next', 'brush dynamics that use random'])
prop('B12', 'Setting, input and state tables match their definition and are found by name',
     'Every setting, input and state in the definition file appears in the compiled tables under the same position, name, range and default, and looking up its name returns it, while any other name is reported as unknown. '
     'Resetting a brush to defaults gives exactly these defaults and no curves except the documented pressure curve, whatever the brush was like before.',
     ['inputs', 'histories'], 'all entries, all names, all prior states of the brush',
     'Tests look up a few names; the tables are generated and nobody compares all of them with the definition.',
     ['generate.py', 'brushsettings.json', 'mypaint-brush-settings.c', 'mypaint-brush.c'], [('generated tables', 'generate.py'), ('lookup', 'mypaint-brush-settings.c'), ('defaults', 'mypaint-brush.c: mypaint_brush_from_defaults')], ['mypaint_brush_setting_info', 'mypaint_brush_setting_from_cname', 'mypaint_brush_input_from_cname', 'mypaint_brush_from_defaults'])
prop('B13', 'Loading a brush file applies exactly what it says and never breaks the brush',
     'Loading a version 3 brush description sets the base value and curves of each well-formed setting in it exactly and leaves every setting it does not mention unchanged; success is reported if and only if some setting was applied. '
     'Any other text - damaged, of another version or of the wrong structure - is rejected without crashing and, if it cannot be read as a brush description at all, without changing the brush.',
     ['inputs', 'fault_sequences'], 'all texts: well-formed files, files with malformed entries, truncated and corrupted files',
     'Tests load a few good and a few broken files.',
     ['mypaint-brush.c', 'mypaint-brush-settings.c'], [('parsing', 'mypaint-brush.c: mypaint_brush_from_string, update_brush_from_json_object, update_brush_setting_from_json_object')], ['mypaint_brush_from_string', 'mypaint_brush_get_base_value', 'mypaint_brush_get_mapping_point'])
prop('B14', 'Every dab is requested with finite, in-range parameters',
     'For settings and curves that keep every value within its documented range, whatever the sequence of input events - including infinite or absurd coordinates, zero or negative time steps and pressure beyond [0, 1] - every dab a brush requests has finite parameters, a radius in (0, 10000], opacity and softness in [0, 1], hardness at most 1 and an angle of at most half a turn. '
     'The brush\'s state stays finite.',
     ['inputs', 'histories', 'configurations'], 'all brushes with settings and curve totals within the documented ranges, all event sequences',
     'Tests replay one recorded stroke with a few brushes.',
     ['mypaint-brush.c'], [('sanitising of events', 'mypaint-brush.c: mypaint_brush_stroke_to'), ('clamping of derived values', 'mypaint-brush.c: prepare_and_draw_dab, update_states_and_setting_values')], ['arguments of the surface\'s draw_dab and get_color'])
prop('B15', 'Smudge buckets are independent and addressed as selected',
     'Reading or writing a smudge bucket succeeds if and only if its index is below the number of buckets, returns what was last stored there and touches no other bucket; a dab uses the bucket nearest to the selected one, or the single smudge state if there are no buckets. '
     'A reset clears every used bucket, and the reported range of used buckets contains exactly the span of those written since.',
     ['histories', 'inputs'], 'all numbers of buckets, all indices, all interleavings of accesses, dabs and resets',
     'Tests do not touch the bucket accessors.',
     ['mypaint-brush.c'], [('bucket selection', 'mypaint-brush.c: fetch_smudge_bucket'), ('accessors', 'mypaint-brush.c: mypaint_brush_get_smudge_bucket_state, mypaint_brush_set_smudge_bucket_state'), ('reset', 'mypaint-brush.c: brush_reset')], ['mypaint_brush_get_smudge_bucket_state', 'mypaint_brush_get_min_smudge_bucket_used'])
prop('B16', 'Strokes are repeatable and end by the documented rules',
     'Two brushes with the same settings fed the same events request identical dabs and report identical stroke ends, independent of memory contents and of other brushes. '
     'A stroke ends after a reset or a long pause, after about a second of painting nothing, or when it has been painted for longer than a bound that grows with pressure, and its painting time counts exactly the time during which something was painted.',
     ['histories', 'inputs', 'configurations'], 'all brushes, all event sequences, all answers of the surface',
     'Tests replay one stroke once and compare its length or nothing at all.',
     ['mypaint-brush.c', 'rng-double.c'], [('stroke splitting', 'mypaint-brush.c: mypaint_brush_stroke_to_internal'), ('initial state', 'mypaint-brush.c: mypaint_brush_new_with_buckets, brush_reset')], ['mypaint_brush_stroke_to', 'mypaint_brush_get_total_stroke_painting_time'])
prop('B17', 'A dab\'s opacity falls off as documented and vanishes outside its ellipse',
     'The opacity of every pixel of a dab is the documented function of its elliptical distance from the centre, hardness and softness, up to rounding; it never exceeds one and is zero outside the ellipse. '
     'The computed mask is a well-formed run-length code that covers exactly one tile and stays within its buffer.',
     ['inputs'], 'all centres, radii, hardnesses, softnesses, aspect ratios and angles, all tiles',
     'Tests compare nothing per pixel; tile edges, tiny radii and extreme aspect ratios are not sampled.',
     ['mypaint-tiled-surface.c'], [('mask rendering', 'mypaint-tiled-surface.c: render_dab_mask, calculate_opa, calculate_rr, calculate_rr_antialiased')], ['tile buffers after mypaint_surface_draw_dab'])
prop('B18', 'Picking a colour returns the average of the canvas under the probe',
     'The picked colour is the average of the canvas under the probe weighted by the probe\'s falloff and by alpha, all four results are in [0, 1], and an empty area gives alpha zero. '
     'Picking sees all dabs drawn before, also inside a transaction, changes no pixel, and works for every position and radius, including tiny and very large ones.',
     ['inputs', 'histories'], 'all canvases, positions, radii and pigment shares',
     'Tests pick no colours or a single one.',
     ['mypaint-tiled-surface.c', 'brushmodes.c'], [('accumulation', 'brushmodes.c: get_color_pixels_accumulate, get_color_pixels_legacy'), ('normalisation and clamping', 'mypaint-tiled-surface.c: get_color_internal')], ['mypaint_surface_get_color'])
prop('B19', 'Reference counted objects are destroyed once, at zero, and give everything back',
     'A brush or surface stays usable as long as one reference is left, is destroyed exactly when the last one is released, and releases everything it allocated, whatever was done with it before - also when paint operations are still queued. '
     'No operation touches memory that was released or never allocated.',
     ['histories'], 'all sequences of ref, unref and use',
     'Tests hold one reference, and leaks and early frees go unnoticed.',
     ['mypaint-brush.c', 'mypaint-surface.c', 'mypaint-tiled-surface.c', 'mypaint-fixed-tiled-surface.c', 'operationqueue.c', 'fifo.c', 'tilemap.c', 'mypaint-mapping.c'], [('reference counts', 'mypaint-brush.c: mypaint_brush_unref; mypaint-surface.c: mypaint_surface_unref'), ('destruction', 'mypaint-brush.c: brush_free; mypaint-tiled-surface.c: mypaint_tiled_surface_destroy')], ['mypaint_brush_unref', 'mypaint_surface_unref'])

with open('properties.jsonl', 'w') as f:
    for p in A: f.write(json.dumps(p) + '\n')
checks = []
for p in A:
    P = registry.PROPS.get(p['id'])
    if not P: continue
    vc = bool(P['tasks'])
    note = P.get('note', '')
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + p['id'],
                       technique='contract-based deductive verification of the compiled source (dv: weakest preconditions over LLVM IR, z3 and cvc5)' + ('; bounded replay oracle on the real code' if P.get('native') else '') if vc else 'bounded execution of the real code against contracts (no obligation within reach yet)',
                       level=P.get('level', 'proof' if vc else 'exploration'),
                       level_note=(note + ' ' if note else '') + ('Obligations are proved for all inputs over real-number floats (rounding only where stated), assuming libm and json-c contracts, successful allocation and a correct clang front end. The native oracles are bounded and only add replayable inputs.' if vc else 'Bounded: random cases against an independent reference, with AddressSanitizer and UBSan.')))
M = dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks,
         not_applicable=[dict(property=p['id'], reason=registry.NA[p['id']]) for p in A if p['id'] not in registry.PROPS])
json.dump(M, open('MANIFEST.json', 'w'), indent=1)
