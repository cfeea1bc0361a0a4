import copy
from vfrun import Unit, CHECKS
NOWRAP = [c for c in CHECKS if c not in ('--undefined-shift-check', '--signed-overflow-check')]
PROPS = {}

INT_TYPES = [  # suffix, C type, DWARF name, encoding, signed
    ('char', 'char', 'char', 'METAC_ENC_signed_char', 1, '||enc==METAC_ENC_unsigned_char'),
    ('uchar', 'unsigned char', 'unsigned char', 'METAC_ENC_unsigned_char', 0, ''),
    ('short', 'short', 'short int', 'METAC_ENC_signed', 1, ''),
    ('ushort', 'unsigned short', 'unsigned short int', 'METAC_ENC_unsigned', 0, ''),
    ('int', 'int', 'int', 'METAC_ENC_signed', 1, ''),
    ('uint', 'unsigned int', 'unsigned int', 'METAC_ENC_unsigned', 0, ''),
    ('long', 'long', 'long int', 'METAC_ENC_signed', 1, ''),
    ('ulong', 'unsigned long', 'unsigned long int', 'METAC_ENC_unsigned', 0, ''),
    ('llong', 'long long', 'long long int', 'METAC_ENC_signed', 1, ''),
    ('ullong', 'unsigned long long', 'unsigned long long int', 'METAC_ENC_unsigned', 0, ''),
    ('bool', '_Bool', '_Bool', 'METAC_ENC_boolean', 0, ''),
]
FLT_TYPES = [
    ('float', 'float', 'float', 'METAC_ENC_float', 64),
    ('double', 'double', 'double', 'METAC_ENC_float', 64),
    ('ldouble', 'long double', 'long double', 'METAC_ENC_float', 10),
    ('float_complex', 'float complex', 'complex float', 'METAC_ENC_complex_float', 64),
    ('double_complex', 'double complex', 'complex double', 'METAC_ENC_complex_float', 64),
    ('ldouble_complex', 'long double complex', 'long complex double', 'METAC_ENC_complex_float', 10),
]
VAL = ['entry.c', 'value.c', 'value_base_type.c']
MEMW = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'free', 'strdup', 'strndup'))]
ALL = ['entry.c', 'entry_cdecl.c', 'entry_tag.c', 'hashmap.c', 'iterator.c', 'printf_format.c', 'value.c', 'value_base_type.c', 'value_deep.c', 'value_string.c', 'value_with_args.c', 'entry_db.c']


def c01():
    us = []
    types = [(a, b, c, d, f, 64, 1) for a, b, c, d, e, f in INT_TYPES] + [(a, b, c, d, '', s, 0) for a, b, c, d, s in FLT_TYPES]
    for fn, t, name, enc, alt, sig, isint in types:
        d = ['-DT=' + t, '-DGET=metac_value_' + fn, '-DSET=metac_value_set_' + fn, '-DEIS=metac_entry_is_' + fn, '-DVIS=metac_value_is_' + fn, '-DNAME="%s"' % name, '-DENC=' + enc, '-DALT_ENC=' + alt, '-DSIGB=%d' % sig]
        if fn == 'bool':
            d.append('-DBOOLV')
        modes = [(1, 'read', 'metac_value_' + fn), (2, 'write', 'metac_value_set_' + fn), (3, 'test', 'metac_entry_is_' + fn),
                 (4, 'equal', 'metac_value_equal_base_type'), (5, 'copy', 'metac_value_copy_base_type')]
        if isint:
            modes.append((6, 'widen', 'metac_value_num'))
        for m, mn, f in modes:
            if m <= 3:
                us.append(Unit('%s[%s]' % (mn, fn), 'scalar.c', VAL, d + ['-DMODE=%d' % m], [f], unwind=50, contracts=[f]))
                continue
            for vn, sh, oth in (('var', 1, 0), ('member', 2, 0), ('other-src', 1, 1), ('other-dst', 1, 2)):
                if m == 6 and oth:
                    continue
                if m == 4 and 'complex' in fn:   # CBMC 6.11 aborts on == between complex numbers
                    if oth == 0:
                        us.append(Unit('%s[%s,%s]' % (mn, fn, vn), 'scalar.c', VAL, d + ['-DMODE=%d' % m, '-DSHAPE=%d' % sh, '-DOTHER=%d' % oth, '-DSAMPLED'], contracts=[f],
                                       kind='sampled', bound='20000 pseudo-random pairs, executed natively'))
                    continue
                us.append(Unit('%s[%s,%s]' % (mn, fn, vn), 'scalar.c', VAL, d + ['-DMODE=%d' % m, '-DSHAPE=%d' % sh, '-DOTHER=%d' % oth], [f],
                               unwind=50, contracts=[f], tier='thorough' if (oth or sh == 2) and fn not in ('char', 'int', 'uchar', 'double') else 'quick'))
        us.append(Unit('null[%s]' % fn, 'scalar.c', VAL, d + ['-DMODE=7', '-DSHAPE=2', '-DOTHER=0'], [], unwind=50, contracts=['metac_value_is_' + fn]))
    return us


def c02():
    us = []
    for fn, t, name, enc, sgn, alt in INT_TYPES:
        for dw in (3, 4, 5):
            tier = 'quick' if dw < 5 or fn in ('uint', 'long') else 'thorough'
            kw = dict(unwind=26, tier=tier, weight=2 if fn.endswith(('long', 'int')) else 1)
            d = ['-DT=' + t, '-DGET=metac_value_' + fn, '-DSET=metac_value_set_' + fn, '-DNAME="%s"' % name, '-DENC=' + enc, '-DSGN=%d' % sgn, '-DALT_ENC=' + alt, '-DDW=%d' % dw]
            us.append(Unit('read[%s,dw%d]' % (fn, dw), 'bitfield.c', VAL, d, ['metac_value_' + fn], **kw))
            us.append(Unit('write[%s,dw%d]' % (fn, dw), 'bitfield.c', VAL, d + ['-DMODE_SET'], ['metac_value_set_' + fn], **kw))
    return us


def idx_cut(src, fn, loop=0, count=1):
    """a search loop over an array, cut at an arbitrary index"""
    return dict(id=fn + ' loop', src=src, fn=fn, loop=loop, count=count, roles={'i': 'metac_num_t'}, inv='vf_inv_idx({i})',
                pool={'metac_num_t': 'vf_hv_idx()'}, prelude='idx_ghost.h')


def c03():
    pool = {'metac_entry_t *': 'vf_hv_entry()', 'struct metac_entry *': 'vf_hv_entry()', 'metac_quals_t': 'vf_hv_quals()'}
    us = []
    for m, f, roles, inv in ((1, 'metac_entry_final_entry', {'cur': 'metac_entry_t *', 'quals': 'metac_quals_t'}, 'vf_inv({cur}, {quals}.flags)'),
                             (2, 'metac_entry_byte_size', {'cur': 'metac_entry_t *', 'mult': 'metac_size_t'}, 'vf_inv({cur}, {mult})')):
        cut = dict(id=f + ' loop', src='entry.c', fn=f, loop=0, count=1, roles=roles, inv=inv, pool=pool, prelude='chain_ghost.h')
        rn = 'resolve' if m == 1 else 'size'
        for nn in ('', '-NULL'):
            us.append(Unit(rn + '-any-length' + nn, 'chain.c', ['entry.c'], ['-DMODE=%d' % m, '-DCUT', '-DN=4'] + (['-DNEXTNULL'] if nn else []), [f], unwind=24,
                           cuts=[cut], native=False))
        for n in range(1, 7 if m == 1 else 5):
            us.append(Unit('%s-chain-%d' % (rn, n), 'chain.c', ['entry.c'], ['-DMODE=%d' % m, '-DN=%d' % n], [], unwind=24, kind='bounded',
                           bound='chains of %d entries, sizes below 256, array lengths below 13' % n, contracts=[f]))
        us.append(Unit('resolve-long' if m == 1 else 'size-long', 'chain.c', ['entry.c'], ['-DMODE=%d' % m, '-DN=40', '-DLONG'], kind='sampled', hang=True,
                       bound='pseudo-random chains of up to 40 entries, executed natively', contracts=[f]))
    return us


def c04():
    us = []
    for sz in (1, 2, 3, 4, 8):
        for m, mn, f in ((1, 'read', 'metac_value_enumeration'), (2, 'write', 'metac_value_set_enumeration')):
            us.append(Unit('%s[%d]' % (mn, sz), 'enumr.c', VAL, ['-DMODE=%d' % m, '-DSZ=%d' % sz, '-DNE=2'], [f] if m == 1 else [], unwind=34, contracts=[f]))
            if sz != 3:
                us.append(Unit('%s[%d,bit-field]' % (mn, sz), 'enumr.c', VAL, ['-DMODE=%d' % m, '-DSZ=%d' % sz, '-DNE=2', '-DBITF'], [f], unwind=34, contracts=[f]))
        if sz != 3:
            us.append(Unit('equal[%d]' % sz, 'enumr.c', VAL, ['-DMODE=5', '-DSZ=%d' % sz, '-DNE=2'], unwind=34, contracts=['metac_value_equal_enumeration']))
            us.append(Unit('copy[%d]' % sz, 'enumr.c', VAL, ['-DMODE=6', '-DSZ=%d' % sz, '-DNE=2'], unwind=34, contracts=['metac_value_copy_enumeration']))
            us.append(Unit('widen[%d]' % sz, 'enumr.c', VAL, ['-DMODE=7', '-DSZ=%d' % sz, '-DNE=2'], unwind=34, contracts=['metac_value_num']))
            us.append(Unit('text[%d]' % sz, 'enumr.c', VAL, ['-DMODE=8', '-DSZ=%d' % sz, '-DNE=4'], kind='sampled', contracts=['metac_value_enumeration_string'],
                           bound='20000 pseudo-random enumerations and values, executed natively'))
        if sz != 3:
            us.append(Unit('read[%d,any-count]' % sz, 'enumr.c', VAL, ['-DMODE=1', '-DSZ=%d' % sz, '-DNE=2', '-DCUT'], unwind=34, native=False, contracts=['metac_value_enumeration'],
                           cuts=[idx_cut('value.c', '_enumeration_is_signed')]))
    us.append(Unit('name[any-count]', 'enumr.c', VAL, ['-DMODE=3', '-DNE=2', '-DCUT'], unwind=34, native=False, contracts=['metac_entry_enumeration_to_name'],
                   cuts=[idx_cut('entry.c', 'metac_entry_enumeration_to_name')]))
    for ne in range(0, 6):
        b = 'enumerations with %d enumerators' % ne
        us.append(Unit('name[%d]' % ne, 'enumr.c', VAL, ['-DMODE=3', '-DNE=%d' % ne], unwind=34, kind='bounded', bound=b,
                       contracts=['metac_entry_enumeration_to_name', 'metac_value_enumeration_to_name']))
        us.append(Unit('index[%d]' % ne, 'enumr.c', VAL, ['-DMODE=4', '-DNE=%d' % ne], unwind=34, kind='bounded', bound=b,
                       contracts=['metac_entry_enumeration_info', 'metac_entry_enumeration_info_size', 'metac_value_enumeration_info', 'metac_value_enumeration_info_size']))
    return us


PROPS['C01'] = dict(level='proof', units=c01())
PROPS['C02'] = dict(level='proof', units=c02())
PROPS['C03'] = dict(level='proof', units=c03())
PROPS['C04'] = dict(level='proof', units=c04())


def c05():
    us = []
    def u(name, m, f, nm=3, d=(), **kw):
        us.append(Unit(name, 'nav.c', VAL, ['-DMODE=%d' % m, '-DNM=%d' % nm] + list(d), unwind=12, contracts=f, **kw))
    u('member-by-number', 1, ['metac_entry_by_member_id', 'metac_entry_member_count', 'metac_entry_has_members'], enforce=['metac_entry_by_member_id'])
    for nm in range(0, 5):
        u('member-by-name[%d]' % nm, 2, ['metac_entry_member_name_to_id'], nm, kind='bounded', bound='structures of %d members, names from a pool with prefixes, the empty name and no name' % nm)
        u('parameter-by-name[%d]' % nm, 8, ['metac_entry_paremeter_name_to_id', 'metac_entry_by_parameter_ids'], nm, kind='bounded', bound='functions of %d parameters, names from a pool' % nm)
    u('member-by-name[any-count]', 2, ['metac_entry_member_name_to_id'], d=['-DCUT'], native=False, cuts=[idx_cut('entry.c', 'metac_entry_member_name_to_id')])
    u('parameter-by-name[any-count,function]', 8, ['metac_entry_paremeter_name_to_id'], d=['-DCUT'], native=False, cuts=[idx_cut('entry.c', 'metac_entry_paremeter_name_to_id', 0, 2)])
    u('parameter-by-name[any-count,function type]', 8, ['metac_entry_paremeter_name_to_id'], d=['-DCUT', '-DSUBR'], native=False, cuts=[idx_cut('entry.c', 'metac_entry_paremeter_name_to_id', 1, 2)])
    for n in range(0, 4):
        for fin in (0, 1):
            u('member-path[%d%s]' % (n, ',resolved' if fin else ''), 3, ['metac_entry_by_member_ids'], d=['-DPN=%d' % n, '-DPFIN=%d' % fin], kind='bounded', weight=3,
              bound='two nested structures of two members, paths of %d steps' % n)
    for nm in (0, 1, 3):
        u('member-value[%d]' % nm, 4, ['metac_new_value_by_member_id', 'metac_value_has_members', 'metac_value_member_count'], nm)
    EF = ['metac_new_value_by_element_id', 'metac_entry_element_count', 'metac_entry_element_entry', 'metac_entry_has_elements', 'metac_value_has_elements', 'metac_value_element_count']
    for es in (1, 2, 3, 4, 8, 12, 16, 40):
        u('element[size %d]' % es, 5, EF, d=['-DESZ=%d' % es])
    u('element[any size]', 5, EF, kind='bounded', bound='element sizes below 256, indices below 64')
    u('counted-array', 6, ['metac_new_element_count_entry', 'metac_new_element_count_value'])
    u('parameter-by-number', 7, ['metac_entry_by_paremeter_id', 'metac_entry_parameters_count', 'metac_entry_has_parameters'], enforce=['metac_entry_by_paremeter_id'])
    u('descriptions', 9, ['metac_new_entry', 'metac_entry_delete', 'metac_entry_parent_count', 'metac_entry_parent_entry', 'metac_new_value', 'metac_new_value_from_value', 'metac_value_delete', 'metac_value_kind', 'metac_value_name', 'metac_value_final_kind'])
    u('member-location', 10, ['metac_entry_member_raw_location_info', 'metac_entry_is_member', 'metac_entry_member_entry'])
    u('results', 11, ['metac_entry_has_result', 'metac_entry_result_type', 'metac_entry_is_parameter', 'metac_entry_is_unspecified_parameter', 'metac_entry_parameter_entry'])
    return us


PROPS['C05'] = dict(level='proof', units=c05())


def c19():
    us = []
    for m, n, f, enf in ((1, 'read', ['metac_value_pointer'], 1), (2, 'write', ['metac_value_set_pointer'], 1), (3, 'equal', ['metac_value_equal_pointer'], 1), (4, 'copy', ['metac_value_copy_pointer'], 0),
                    (5, 'kinds', ['metac_entry_is_pointer', 'metac_entry_is_void_pointer', 'metac_entry_is_declaration_pointer', 'metac_entry_pointer_entry', 'metac_value_is_pointer', 'metac_value_is_void_pointer', 'metac_value_is_declaration_pointer'], 0),
                    (8, 'missing-arguments', ['metac_value_pointer', 'metac_value_set_pointer', 'metac_value_equal_pointer', 'metac_value_copy_pointer'], 0)):
        us.append(Unit(n, 'ptr.c', VAL, ['-DMODE=%d' % m], enforce=f if enf else (), unwind=50, contracts=f))
    us.append(Unit('text', 'ptr.c', VAL, ['-DMODE=7'], kind='sampled', bound='20000 pseudo-random pointers, executed natively', contracts=['metac_value_pointer_string']))
    us.append(Unit('loop[any-depth]', 'ptr.c', VAL, ['-DMODE=6', '-DDEPTH=0'], unwind=16, native=False, contracts=['metac_value_level_introduced_loop'],
                   replace_note='metac_recursive_iterator_level and _get_in by the contract C07 checks',
                   cuts=[dict(id='metac_value_level_introduced_loop loop', src='value.c', fn='metac_value_level_introduced_loop', loop=0, count=1, roles={'l': 'int'}, inv='vf_inv_loop({l})', pool={}, prelude='ptr_ghost.h')]))
    us.append(Unit('loop[deep]', 'ptr.c', VAL + ['iterator.c'], ['-DMODE=6', '-DDEPTH=12'], kind='sampled', bound='20000 pseudo-random walks 13 levels deep', contracts=['metac_value_level_introduced_loop']))
    return us


PROPS['C19'] = dict(level='proof', units=c19())


def c07():
    us = []
    G = 'iter_ghost.h'
    RP = ['recursive_iterator_entry_t *', 'struct recursive_iterator_entry *']
    A = 'metac_recursive_iterator_'
    def u(name, m, f, fn=(), cuts=(), **kw):
        us.append(Unit(name, 'iter.c', [], ['-DMODE=%d' % m], unwind=6, contracts=[A + x for x in f], cuts=list(cuts), inc=['iterator.c'], native=False, **kw))
    def cut(fn, loop, count, inv, roles, hv):
        return dict(id=A + fn + ' loop', src='iterator.c', fn=A + fn, loop=loop, count=count, roles=roles, inv=inv, pool={t: hv for t in RP}, prelude=G)
    u('append', 1, ['create_and_append_dep'])
    u('dequeue', 2, ['dequeue_and_delete_dep'])
    nx = [dict(id=A + 'next loop', src='iterator.c', fn=A + 'next', loop=0, count=2, roles={}, inv='vf_inv_next()', pool={}, heap='vf_hv_next();', prelude=G),
          cut('next', 1, 2, 'vf_inv_scan({p})', {'p': RP}, 'vf_hv_scan()')]
    u('next[any tree]', 3, ['next'], cuts=nx)
    u('level[any depth]', 4, ['level'], alts=[['-DALT=1']], cuts=[cut('level', 0, 1, 'vf_inv_climb({p}, {n})', {'p': RP, 'n': 'int'}, 'vf_hv_climb()')])
    u('path[any depth]', 5, ['get_in'], alts=[['-DALT=1']], cuts=[cut('get_in', 0, 1, 'vf_inv_climb({p}, {n})', {'p': RP, 'n': 'int'}, 'vf_hv_climb()')])
    u('queue-size[any length]', 6, ['dep_queue_size', 'dep_queue_is_empty'], cuts=[cut('dep_queue_size', 0, 1, 'vf_inv_climb({p}, {n})', {'p': RP, 'n': 'int'}, 'vf_hv_climb()')])
    u('result-by-position[any length]', 7, ['get_dep_out'], alts=[['-DALT=1']], cuts=[cut('get_dep_out', 0, 1, 'vf_inv_pos({p}, {n})', {'p': RP, 'n': 'int'}, 'vf_hv_climb()')])
    u('state-and-result', 8, ['get_state', 'set_state', 'get_context', 'set_context', 'done', 'fail', 'get_out', 'free'])
    us.append(Unit('histories', 'iter.c', ['iterator.c'], ['-DMODE=9'], kind='sampled', hang=True, bound='20000 pseudo-random histories of up to 120 operations and 64 tasks against a reference model, executed natively', contracts=[A + 'next']))
    return us


PROPS['C07'] = dict(level='proof', units=c07())


def c06():
    us = []
    EP, EPP = ['Entry *', 'struct Entry *'], ['Entry * *', 'struct Entry * *']
    SZ = ['size_t', 'unsigned long']
    def cut(fn, loop, count, ty, inv, hv, extra={}):
        pool = {t: hv for t in ty}
        pool.update(extra)
        return dict(id=fn + ' loop %d' % loop, src='hashmap.c', fn=fn, loop=loop, count=count, roles={'p': ty}, inv=inv, pool=pool, prelude='map_ghost.h')
    def u(name, m, f, cuts, **kw):
        us.append(Unit(name, 'map.c', [], ['-DMODE=%d' % m], unwind=6, checks=NOWRAP, contracts=f, cuts=cuts, inc=['hashmap.c'], native=False, **kw))
    u('get[any chain]', 1, ['hashmapGet'], [cut('hashmapGet', 0, 1, EP, 'vf_inv_ent({p})', 'vf_hv_ent()')])
    u('contains[any chain]', 2, ['hashmapContainsKey'], [cut('hashmapContainsKey', 0, 1, EP, 'vf_inv_ent({p})', 'vf_hv_ent()')])
    u('put[any chain]', 3, ['hashmapPut'], [cut('hashmapPut', 0, 1, EPP, 'vf_inv_link({p})', 'vf_hv_link()')])
    u('memoize[any chain]', 4, ['hashmapMemoize'], [cut('hashmapMemoize', 0, 1, EPP, 'vf_inv_link({p})', 'vf_hv_link()')])
    u('remove[any chain]', 5, ['hashmapRemove'], [cut('hashmapRemove', 0, 1, EPP, 'vf_inv_link({p})', 'vf_hv_link()', {t: '0' for t in EP})])
    for m, n, f in ((6, 'growth[any size]', 'expandIfNecessary'), (7, 'iteration[any size]', 'hashmapForEach'), (8, 'deletion[any size]', 'hashmapFree')):
        u(n, m, [f], [cut(f, 0, 2, SZ, 'vf_inv_i({p})', 'vf_hv_i()'), cut(f, 1, 2, EP, 'vf_inv_ent2({p})', 'vf_hv_ent2()')])
    us.append(Unit('keys', 'map.c', ['hashmap.c'], ['-DMODE=14'], unwind=8, kind='bounded', checks=NOWRAP, bound='key blocks of up to 6 bytes', contracts=['hashmapHash', 'hashmapIntHash', 'hashmapIntEquals']))
    for cap in (0, 1, 5):
        us.append(Unit('creation[%d]' % cap, 'map.c', ['hashmap.c'], ['-DMODE=13', '-DCAP=%d' % cap], unwind=18, kind='bounded', checks=NOWRAP, bound='initial capacity %d' % cap, contracts=['hashmapCreate', 'hashmapSize', 'hashmapCurrentCapacity']))
    us.append(Unit('histories', 'map.c', ['hashmap.c'], ['-DMODE=11'], kind='sampled', hang=True, bound='20000 pseudo-random histories of up to 300 operations over 40 keys against a reference model, executed natively', contracts=['hashmapPut', 'hashmapMemoize', 'hashmapRemove', 'hashmapGet', 'hashmapForEach', 'hashmapCountCollisions']))
    us.append(Unit('histories[large]', 'map.c', ['hashmap.c'], ['-DMODE=15'], kind='sampled', hang=True, bound='pseudo-random histories of maps of up to 20000 keys (4 phases of filling, removing and refilling) against a reference model, executed natively for up to 20 s', contracts=['hashmapPut', 'hashmapRemove', 'hashmapGet', 'hashmapForEach', 'expandIfNecessary']))
    us.append(Unit('histories[memory failures]', 'map.c', ['hashmap.c'], ['-DMODE=11', '-DFAILS'], kind='sampled', hang=True, cflags=['-Wl,--wrap=malloc', '-Wl,--wrap=calloc'], bound='the same with single allocation failures injected', contracts=['hashmapPut', 'hashmapMemoize']))
    return us


PROPS['C06'] = dict(level='proof', units=c06())


def c11():
    us = []
    P1, P2, P3 = ['metac_parse_format_specifier'], ['metac_count_format_specifiers'], ['metac_store_vprintf_params', 'metac_store_printf_params']
    S = ['printf_format.c']
    for n in range(0, 10):
        us.append(Unit('conversion[%d]' % n, 'pfmt.c', S, ['-DMODE=1', '-DLEN=%d' % n], unwind=n + 3, unwindset=['ct_init.0:130'], checks=NOWRAP, kind='bounded', bound='every string of %d characters' % n, contracts=P1, weight=n))
        if n < 6:
            us.append(Unit('count[%d]' % n, 'pfmt.c', S, ['-DMODE=2', '-DLEN=%d' % n], unwind=n + 3, unwindset=['ct_init.0:130'], checks=NOWRAP, kind='bounded', bound='every string of %d characters' % n, contracts=P2, weight=n))
    us.append(Unit('conversion[long]', 'pfmt.c', S, ['-DMODE=1', '-DLEN=16', '-DPOOL'], kind='sampled', bound='pseudo-random strings of up to 16 format characters', contracts=P1))
    us.append(Unit('count[long]', 'pfmt.c', S, ['-DMODE=2', '-DLEN=24', '-DPOOL'], kind='sampled', bound='pseudo-random strings of up to 24 format characters', contracts=P2))
    us.append(Unit('capture', 'pfmt.c', VAL + ['value_with_args.c', 'iterator.c'], ['-DMODE=3'], kind='sampled', inc=['printf_format.c'], contracts=P3,
                   bound='pseudo-random formats of up to 6 conversions with every flag, length and argument class, strings up to 70 characters, executed natively'))
    us.append(Unit('capture[handler]', 'pfmt.c', [x for x in ALL if x != 'printf_format.c'], ['-DMODE=3', '-DHANDLER'], kind='sampled', inc=['printf_format.c'], cflags=MEMW, contracts=['metac_handle_printf_format', 'metac_value_parameter_vwrap'],
                   bound='pseudo-random calls of up to 3 parameters, a format and the arguments it asks for (... or a list), captured through the tag handler'))
    us.append(Unit('handler', 'fhandler.c', ['entry.c', 'value.c', 'entry_tag.c'], [], unwind=6, native=False, drop=['metac_value_delete'], contracts=['metac_handle_printf_format'],
                   replace_note='iterator level and path (C07), stored parameters (C12), the capture (the other C11 units)'))
    return us + fcap(False)


def fcap(failures):
    """the capture of printf arguments, conversion by conversion, for any argument content"""
    us = []
    def u(name, fmt, ta=4, tb=4, n=2, slen=-1, fapp=0, fnew=0, fent=0, v=0):
        d = ['-DFMT="%s"' % fmt, '-DN=%d' % n, '-DTA=%d' % ta, '-DTB=%d' % tb, '-DSLEN=%d' % slen, '-DFAPP=%d' % fapp, '-DFNEW=%d' % fnew, '-DFENT=%d' % fent, '-DV=%d' % v]
        us.append(Unit('capture[%s]' % name, 'fcapture.c', [], d, inc=['printf_format.c'], unwind=33, unwindset=['ct_init.0:130'], cbmc=['--no-malloc-may-fail'], native=False, kind='bounded', bound='format %s, arguments of any content' % fmt,
                       contracts=['_new_value_from_format_specifier', 'metac_store_printf_params', 'metac_store_vprintf_params']))
    L = ['hh', 'h', '', 'l', 'll']
    if failures:
        for k in (1, 2):
            u('append %d fails' % k, '%d %ld', tb=6, fapp=k)
            u('value %d fails' % k, '%p %f', ta=12, tb=10, fnew=k, v=k - 1)
        for k, w in enumerate(('fapp', 'fnew', 'fent')):
            u('string, %s fails' % ('append', 'value', 'description')[k], '%c%s', ta=0, tb=20, slen=3, **{w: 1 if w == 'fent' else 2})
        u('no string, append fails', '%s', ta=20, n=1, fapp=1)
        u('no string, value fails', '%s', ta=20, n=1, fnew=1)
        return us
    i = 0
    for c in 'dioxuX':
        for k, l in enumerate(L):
            t = 2 * k + (0 if c in 'di' else 1)
            i += 1
            u('%' + l + c, ('x%%%s%s%%%%%%d', '%%ld%%%s%s')[i % 2] % (l, c), *((t, 4) if i % 2 == 0 else (6, t)), v=(i // 2) % 2)
    for c in 'fge':
        u('%' + c, 'x%' + c + '%-5d', 10, v=1); u('%L' + c, '%5.2L' + c + '%lu', 11, 7); u('second %' + c, '%d%' + c, 4, 10)
    u('%c', '%c%hhd', 0, 0); u('%p', '%p=%d', 12, v=1); u('second %p', '%Lf%p', 11, 12)
    for k, l in enumerate(L):
        u('%%%sn' % l, '%d%%%' + l + 'n', 4, 13 + k, v=k % 2)
    for n in (-1, 0, 1, 2, 7, 15):
        u('%%s of %s' % ('NULL' if n < 0 else n), '%s|%d', 20, slen=n, v=n & 1); u('second %%s of %s' % ('NULL' if n < 0 else n), '%lld%s', 8, 20, slen=n)
    u('no conversion', 'ab%%', n=0); u('empty', '', n=0); u('one conversion', '%u', 5, n=1)
    return us


PROPS['C11'] = dict(level='other', units=c11(), explanation='bounded: every format string up to the stated lengths by the contract harness, the capture of arguments of any content for every conversion against the contracts of the storage; longer formats sampled natively')


def c17():
    F = ['metac_entry_from_entry_db']
    us = [Unit('lookup[any count]', 'db.c', ['entry_db.c'], ['-DMODE=2'], unwind=6, native=False, contracts=F, replace_note='bsearch assumed by the ISO C contract, its preconditions checked')]
    for lv, ln in enumerate(('name', 'location', 'file')):
        for n in (0, 1, 2, 3):
            if n == 0 and lv:
                continue
            us.append(Unit('lookup[%s,%d]' % (ln, n), 'db.c', ['entry_db.c'], ['-DMODE=1', '-DLEVEL=%d' % lv, '-DNI=%d' % n], unwind=6, kind='bounded', reach=n > 0, bound='%d items at the %s level, every name of up to 2 bytes' % (n, ln), contracts=F))
    us.append(Unit('databases', 'db.c', ['entry_db.c'], ['-DMODE=3'], kind='sampled', bound='pseudo-random databases of up to 8 files, 8 locations each and 12 names each', contracts=F))
    return us


PROPS['C17'] = dict(level='proof', units=c17())


def c12():
    us = []
    NP = ['metac_parameter_t *', 'struct metac_parameter *']
    def u(name, m, f, cuts=(), **kw):
        us.append(Unit(name, 'args.c', ['entry.c', 'value.c'], ['-DMODE=%d' % m, '-DKIND=0'], unwind=34, contracts=f, cuts=list(cuts), inc=['value_with_args.c'], native=False, **kw))
    def cut(fn, inv, roles, hv, **kw):
        return dict(id=fn + ' loop', src='value_with_args.c', fn=fn, loop=0, count=1, roles=roles, inv=inv, pool={t: hv for t in NP}, prelude='args_ghost.h', **kw)
    A = 'metac_parameter_storage_'
    u('append[any length]', 1, [A + 'append_by_buffer', A + 'append_by_parameter_storage', A + 'size'])
    u('lookup[any length]', 2, [A + 'new_param_value'], [cut(A + 'new_param_value', 'vf_inv_look({p}, {n})', {'p': NP, 'n': 'metac_num_t'}, 'vf_hv_look()')], alts=[['-DALT=1']])
    u('copy[any length]', 3, [A + 'copy'], [cut(A + 'copy', 'vf_inv_copy({p})', {'p': NP}, 'vf_hv_node()', heap='vf_hv_dst();')])
    u('clean-up[any length]', 4, [A + 'cleanup', A + 'delete'], [cut(A + 'cleanup', 'vf_inv_clean()', {}, '0', heap='vf_hv_clean();')])
    us.append(Unit('call-result', 'args.c', ['entry.c', 'value.c', 'value_with_args.c'], ['-DMODE=7'], unwind=8, contracts=['metac_new_value_with_call_result', 'metac_value_with_call_result_delete']))
    for o, i in ((0, 0), (0, 1), (0, 2), (0, 3), (1, 2), (2, 0), (3, 0), (4, 0), (5, 0), (5, 2), (5, 3)):
        us.append(Unit('va-list[%d,%d]' % (o, i), 'args.c', ['entry.c', 'entry_cdecl.c'], ['-DMODE=8', '-DOUTER=%d' % o, '-DINNER=%d' % i], unwind=18, contracts=['metac_entry_is_va_list_parameter', 'metac_entry_is_unspecified_parameter', 'metac_entry_has_parameter_load'], native_srcs=ALL, kind='bounded', bound='one type layout, names around the real ones'))
    us.append(Unit('histories', 'args.c', ALL, ['-DMODE=5'], kind='sampled', cflags=MEMW, bound='pseudo-random storages of up to 10 parameters, 3 levels of nesting', contracts=[A + 'copy', A + 'new_param_value', A + 'append_by_buffer', A + 'append_by_parameter_storage', A + 'cleanup', 'metac_value_parameter_count', 'metac_value_parameter_new_item']))
    us.append(Unit('capture', 'args.c', ALL, ['-DMODE=6'], kind='sampled', cflags=MEMW, bound='pseudo-random signatures of up to 8 parameters plus a variable part', contracts=['metac_value_parameter_vwrap', 'metac_value_parameter_wrap', 'metac_new_value_with_call_params', 'metac_value_with_call_params_delete', 'metac_entry_struct_va_arg']))
    return us


PROPS['C12'] = dict(level='proof', units=c12())


def c13():
    us = []
    L = ['metac_entry_tag_string_lookup']
    TG = ['entry.c', 'value.c', 'entry_tag.c']
    for n in range(0, 9):
        us.append(Unit('key[%d]' % n, 'tag.c', TG, ['-DMODE=1', '-DLEN=%d' % n], unwind=n + 4, kind='bounded', reach=n >= 4, tier='quick' if n < 7 else 'thorough', bound='every tag string of %d characters, keys of up to 2' % n, contracts=L, weight=1 + n // 3))
    us.append(Unit('key[long]', 'tag.c', ALL, ['-DMODE=1', '-DLEN=40', '-DKLEN=3', '-DPOOL'], kind='sampled', bound='pseudo-random tag strings of up to 40 characters', contracts=L))
    def u(name, m, f, d=(), **kw):
        us.append(Unit(name, 'tag.c', ['entry.c', 'value.c'], ['-DMODE=%d' % m] + list(d), unwind=10, contracts=f, inc=['entry_tag.c'], native=False, replace_note='the hash map by the contract C06 checks', **kw))
    u('lookup[any count]', 2, ['metac_tag_map_tag'], ['-DCUT'], cuts=[dict(id='metac_tag_map_tag loop', src='entry_tag.c', fn='metac_tag_map_tag', loop=0, count=1, roles={'i': 'metac_num_t', 'fe': ['metac_entry_t *', 'struct metac_entry *']},
      inv='vf_inv_tag({i}, {fe})', pool={'metac_num_t': 'vf_hv_idx()', 'metac_entry_t *': 'vf_hv_fin()', 'struct metac_entry *': 'vf_hv_fin()'}, prelude='tag_ghost.h')])
    for n in range(0, 4):
        u('lookup[%d]' % n, 2, ['metac_tag_map_tag'], ['-DNCAT=%d' % n], kind='bounded', bound='%d categories, external maps of one category' % n)
    u('set', 3, ['metac_tag_map_set_tag', '_tag_map_set_tag', '_entry_new_tag', '_entry_tag_delete'])
    for n in range(0, 4):
        u('map[%d]' % n, 4, ['metac_new_tag_map_ex', 'metac_tag_map_delete'], ['-DNCAT=%d' % n], reach=n > 0, kind='bounded', bound='%d categories' % n)
    for fl in (0, 1):
        us.append(Unit('histories' + ('[memory failures]' if fl else ''), 'tag.c', ALL, ['-DMODE=5'] + (['-DFAILS'] if fl else []), kind='sampled', cflags=MEMW, bound='pseudo-random histories of up to 40 operations on up to 3 layered maps and 12 entries' + (', one allocation failing' if fl else ''),
                       contracts=['metac_tag_map_tag', 'metac_tag_map_set_tag', 'metac_new_tag_map', 'metac_new_tag_map_ex', 'metac_tag_map_delete']))
    return us


PROPS['C13'] = dict(level='proof', units=c13())


def c14():
    us = []
    S = ['entry.c', 'value.c', 'entry_tag.c']
    H = 'metac_handle_'
    RN = 'iterator level and path by the contract C07 checks, metac_value_num by the contract C01 checks'
    def u(name, m, f, d=(), native=True, **kw):
        us.append(Unit(name, 'handler.c', S, ['-DMODE=%d' % m] + list(d), unwind=12, contracts=f, replace_note=RN, native=native, native_srcs=ALL, **kw))
    u('count-by[any count]', 1, [H + 'count_by'], ['-DCUT'], native=False, cuts=[idx_cut('entry_tag.c', H + 'count_by', 0, 2)])
    for n in (0, 1, 3):
        u('count-by[%d]' % n, 1, [H + 'count_by'], ['-DNM=%d' % n], reach=n > 0, kind='bounded', bound='structures of %d members' % n)
    us.append(Unit('count-by[parameters]', 'handler.c', ALL, ['-DMODE=7'], kind='sampled', cflags=MEMW, bound='pseudo-random calls of up to 6 parameters', contracts=[H + 'count_by']))
    u('string', 2, [H + 'zero_ended_string'], kind='bounded', bound='every string of up to 7 characters')
    us.append(Unit('string[long]', 'handler.c', ALL, ['-DMODE=2', '-DSL=60'], kind='sampled', bound='pseudo-random strings of up to 60 characters', contracts=[H + 'zero_ended_string']))
    u('container', 3, [H + 'container_of', 'metac_value_event_handler_call', 'metac_value_walker_hierarchy_level', 'metac_value_walker_hierarchy_value'])
    u('union[any count]', 4, [H + 'union_member_select'], ['-DCUT', '-DNC=1'], native=False, cuts=[idx_cut('entry_tag.c', H + 'union_member_select', 0, 2)])
    for n, c in ((0, 1), (2, 0), (2, 1), (2, 2)):
        u('union[%d,%d]' % (n, c), 4, [H + 'union_member_select'], ['-DNM=%d' % n, '-DNC=%d' % c], reach=n > 0 and c > 0, kind='bounded', bound='%d sibling members, %d cases, a union of 3' % (n, c))
    # names: 0 "n", 1 "nn", 2 "", 3 none; (selector, count, names of the two members, cases, case without target, member that is no number)
    for k, (sn, cn, a, b, c, t, nn) in enumerate(((0, 1, 0, 1, 2, 9, 9), (0, 1, 1, 0, 2, 9, 9), (0, 3, 1, 0, 2, 9, 9), (0, 2, 3, 0, 2, 1, 9), (0, 0, 0, 0, 1, 9, 9), (0, 1, 0, 3, 1, 9, 9), (1, 3, 0, 2, 1, 9, 9),
                                              (2, 1, 2, 1, 1, 9, 9), (3, 1, 3, 1, 1, 9, 9), (4, 1, 0, 1, 1, 9, 9), (0, 1, 0, 1, 0, 9, 9), (0, 1, 0, 1, 1, 9, 0), (0, 1, 0, 1, 1, 9, 1), (0, 1, 0, 1, 1, 0, 9))):
        u('cast[%d]' % k, 5, [H + 'ptr_cast'], ['-DNM=2', '-DNC=%d' % c, '-DNT=%d' % t, '-DSN=%d' % sn, '-DCN=%d' % cn, '-DMN0=%d' % a, '-DMN1=%d' % b, '-DNN=%d' % nn], reach=False, kind='bounded', bound='names %s, %d cases, any field values' % ((sn, cn, a, b), c))
    us.append(Unit('contexts', 'handler.c', ['entry.c', 'value.c'], ['-DMODE=6'], unwind=10, native=False, inc=['entry_tag.c'], contracts=['metac_new_count_by_context', 'metac_new_container_of_context', 'metac_new_union_member_permanent_selection', 'metac_new_union_member_select_by_context', 'metac_new_ptr_cast_context']))
    for m, n in ((1, 'count-by'), (4, 'union'), (5, 'cast')):
        us.append(Unit(n + '[many]', 'handler.c', ALL, ['-DMODE=%d' % m, '-DNM=6', '-DNC=4'], kind='sampled', bound='pseudo-random structures of 6 siblings', contracts=[H + {'count-by': 'count_by', 'union': 'union_member_select', 'cast': 'ptr_cast'}[n]]))
    return us


PROPS['C14'] = dict(level='proof', units=c14())


def deep(which):
    us = []
    F = {1: ['metac_value_copy_ex', '_value_copy', '_value_copy_preallocate'], 2: ['metac_value_free_ex', '_value_free'], 3: ['metac_value_equal_ex', '_value_equal']}[which]
    M = ['metac_new_value_memory_map_ex', 'metac_value_memory_map_delete', '_identify_allocatable_entries', 'metac_new_memory_entry', 'metac_memory_entry_delete'] if which < 3 else []
    def u(name, defs, bound):
        us.append(Unit(name, 'deep.c', ALL, defs, kind='sampled', cflags=MEMW, hang=True, bound=bound, contracts=F + M, weight=3))
    G = 'pseudo-random types of up to 4 levels and object graphs of up to %s blocks (shared, interior, cyclic, NULL, tagged)' % 20
    u('graphs', ['-DMODE=%d' % which], G)
    u('calls', ['-DMODE=%d' % which, '-DCALL'], 'pseudo-random calls of up to 6 parameters and variable parameters with such graphs')
    u('calls refused', ['-DMODE=%d' % which, '-DCALL', '-DREFUSE=1'], 'the same, with pointers or unions nobody explains, strict modes')
    u('refused', ['-DMODE=%d' % which, '-DREFUSE=1'], G + ', with pointers or unions nobody explains, strict modes')
    u('lists', ['-DMODE=5', '-DOP=%d' % which], 'pseudo-random lists of up to 6 nodes lying next to each other, ending or leading back to any node')
    if which < 3:
        u('windows', ['-DMODE=4'] + (['-DDEL'] if which == 2 else []), 'pseudo-random sets of arrays overlapping inside one block')
    return us


for _k, _w in (('C08', 1), ('C09', 2), ('C10', 3)):
    PROPS[_k] = dict(level='other', units=deep(_w))

PROPS['C16'] = dict(level='other', units=[Unit('declarations', 'cdecl.c', ALL, ['-DMODE=0'], kind='sampled', cflags=MEMW, hang=True, bound='pseudo-random types of up to 6 levels, names of up to 90 characters, up to 4 members and parameters', contracts=['metac_entry_cdecl'], weight=3)])


def c15():
    us = []
    R = ['metac_value_string_ex', 'metac_value_string', '_dprintable_string', 'metac_value_base_type_string', 'metac_value_enumeration_string', 'metac_value_pointer_string', 'dsprintf', 'dvsprintf']
    def u(name, m, bound, **kw):
        us.append(Unit(name, 'string.c', ALL, ['-DMODE=%d' % m], kind='sampled', cflags=MEMW, hang=True, bound=bound, contracts=R, weight=3, **kw))
    u('objects', 1, 'pseudo-random types of up to 4 levels and object graphs of up to 20 blocks, shallow and deep')
    u('calls', 2, 'pseudo-random calls of up to 6 parameters and 5 variable ones, function names of up to 90 characters')
    u('scalars', 3, 'scalars of every base type with pseudo-random content')
    return us


PROPS['C15'] = dict(level='other', units=c15())


def c18():
    us = []
    B = 'one allocation failing at a pseudo-random point: '
    def u(name, f, defs, fns, bound, **kw):
        us.append(Unit(name, f, ALL, defs, kind='sampled', cflags=MEMW, hang=True, bound=B + bound, contracts=fns, weight=2, **kw))
    for op, n, fns in ((1, 'strings', ['metac_value_string_ex', '_dprintable_string', 'dsprintf', 'dvsprintf']), (2, 'copy', ['metac_value_copy_ex', '_value_copy', '_value_copy_preallocate']), (3, 'copy[tree]', ['metac_value_copy_ex', '_value_copy']),
                       (4, 'delete', ['metac_value_free_ex', '_value_free', 'metac_new_value_memory_map_ex']), (5, 'compare', ['metac_value_equal_ex', '_value_equal'])):
        u(n, 'oom.c', ['-DOP=%d' % op], fns, 'object graphs of up to 20 blocks')
        u(n + '[calls]', 'oom.c', ['-DOP=%d' % op, '-DCALL'], fns, 'calls of up to 6 parameters')
    u('declarations', 'oom.c', ['-DOP=6'], ['metac_entry_cdecl'], 'types of up to 6 levels')
    u('declarations[types]', 'cdecl.c', ['-DMODE=0', '-DFAILS'], ['metac_entry_cdecl'], 'every type of the C16 grammar of up to 6 levels, every allocation in turn')
    u('capture', 'args.c', ['-DMODE=6', '-DFAILS'], ['metac_value_parameter_vwrap', '_value_parameter_wrap'], 'capture of calls with nested variable parts')
    us.append(Unit('capture[printf]', 'pfmt.c', VAL + ['value_with_args.c', 'iterator.c'], ['-DMODE=3', '-DFAILS'], kind='sampled', inc=['printf_format.c'], cflags=MEMW, contracts=['metac_store_vprintf_params', '_new_value_from_format_specifier'], bound=B + 'formats of up to 6 conversions'))
    us += fcap(True)
    for m, n in ((1, 'count_by'), (2, 'zero_ended_string'), (3, 'container_of'), (4, 'union_member_select'), (5, 'ptr_cast'), (7, 'count_by')):
        u('handlers[%s%s]' % (n, ',parameters' if m == 7 else ''), 'handler.c', ['-DMODE=%d' % m, '-DFAILS', '-DNM=4', '-DNC=3'], ['metac_handle_' + n], 'structures of 4 siblings')
    u('iterator', 'iter.c', ['-DMODE=9', '-DFAILS'], ['metac_new_recursive_iterator', 'metac_recursive_iterator_create_and_append_dep'], 'histories of up to 120 operations')
    # obligations in which every allocation may fail
    for p, names in (('C06', ('put[any chain]', 'memoize[any chain]', 'growth[any size]', 'creation[0]', 'creation[1]', 'creation[5]', 'histories[memory failures]')), ('C07', ('append',)), ('C12', ('append[any length]', 'copy[any length]', 'call-result')),
                     ('C13', ('set', 'map[0]', 'map[1]', 'map[2]', 'map[3]', 'histories[memory failures]')), ('C14', ('contexts',))):
        for x in PROPS[p]['units']:
            if x.name in names:
                y = copy.copy(x); y.name = p + ':' + x.name; us.append(y)
    return us


PROPS['C18'] = dict(level='other', units=c18())


def dsteps():
    D = ['metac_entry_final_entry', 'metac_new_value_memory_map_ex', 'metac_value_memory_map_delete', 'metac_value_equal_base_type', 'metac_value_equal_enumeration', 'metac_value_equal_pointer']
    us = []
    K = ['int', 'enum', 'pointer', 'struct', 'union', 'array']
    for a, b in [(i, i) for i in range(6)] + [(0, 2), (3, 4), (3, 5)]:
        us.append(Unit('task[%s,%s]' % (K[a], K[b]), 'dstep.c', ['entry.c', 'value.c', 'value_deep.c'], ['-DMODE=3', '-DKA=%d' % a, '-DKB=%d' % b], unwind=9, native=False, drop=D, contracts=['metac_value_equal_ex']))
    us.append(Unit('task[no memory]', 'dstep.c', ['entry.c', 'value.c', 'value_deep.c'], ['-DMODE=3', '-DKA=0', '-DKB=0', '-DNOITER=1'], unwind=9, native=False, drop=D, reach=False, contracts=['metac_value_equal_ex']))
    return us


PROPS['C10']['units'] += dsteps()


def csteps():
    D = ['metac_entry_final_entry', 'metac_new_value_memory_map_ex', 'metac_value_memory_map_delete', 'metac_value_copy_base_type', 'metac_value_copy_enumeration']
    us = []
    for k, n in enumerate(('int', 'enum', 'pointer', 'struct', 'union', 'array', 'call')):
        for t in (0, 1):
            us.append(Unit('task[%s%s]' % (n, ',tree' if t else ''), 'dstep.c', ['entry.c', 'value.c', 'value_deep.c'], ['-DMODE=1', '-DK=%d' % k, '-DTREE=%d' % t, '-DNT=1'] + (['-DPLAIN'] if k > 1 else []), unwind=5, cbmc=['--object-bits', '10'], native=False, drop=D, contracts=['metac_value_copy_ex', '_value_copy_preallocate', '_value_copy_free']))
    us.append(Unit('task[no memory]', 'dstep.c', ['entry.c', 'value.c', 'value_deep.c'], ['-DMODE=1', '-DK=0', '-DTREE=0', '-DNT=1', '-DNOITER=1'], unwind=5, cbmc=['--object-bits', '10'], native=False, drop=D, reach=False, contracts=['metac_value_copy_ex']))
    return us


PROPS['C08']['units'] += csteps()


def msteps(which):
    us = []
    KN = ['int', 'enum', 'pointer', 'struct', 'union', 'array', 'call', 'variable parameters', 'other']
    #       K  N TAG TREE FLEX KIND FNEW FAILAT
    cases = ['0 0 0 0 0 0 0 0', '0 0 3 1 0 2 0 0', '1 0 0 0 0 1 0 0', '2 1 0 0 0 0 0 0', '2 1 0 0 0 0 0 1', '2 1 1 1 0 1 0 0', '2 1 2 0 0 2 0 0', '2 1 3 0 0 2 0 0', '2 1 3 0 0 0 0 1', '2 1 3 1 0 0 0 0',
             '3 0 0 0 0 0 0 0', '3 3 0 0 0 1 0 0', '3 3 0 0 0 0 0 2', '3 3 0 0 0 0 3 0', '3 3 1 1 0 0 0 0', '4 0 3 0 0 0 0 0', '4 2 0 0 0 1 0 0', '4 2 3 0 0 0 0 0', '4 2 3 0 0 0 0 1', '4 2 2 1 0 0 0 0',
             '5 0 0 0 0 0 0 0', '5 3 0 0 0 1 0 0', '5 3 3 0 1 0 0 0', '5 3 1 0 1 1 0 0', '5 3 3 1 1 0 0 2', '5 3 3 0 1 0 2 0', '6 0 0 0 0 0 0 0', '6 3 0 0 0 1 0 0', '6 3 0 0 0 1 0 2', '6 3 3 1 0 1 3 0',
             '7 3 0 0 0 0 0 0', '7 2 0 0 0 0 2 0', '8 0 0 0 0 0 0 0']
    for c in cases:
        k, n, tag, tree, flex, kind, fnew, fat = map(int, c.split())
        if which == 2 and tree:
            continue
        name = 'map[%s,%d parts%s%s%s%s]' % (KN[k], n, ['', ',no tag', ',tag', ',handler'][tag], ',tree' if tree else '', ',flexible' if flex else '', ',part %d fails' % (fnew or fat) if fnew or fat else '') + ('' if kind == 0 else ['', ' member', ' parameter'][kind])
        us.append(Unit(name, 'mstep.c', ['value_deep.c'], ['-D%s=%d' % (a, b) for a, b in zip(('K', 'N', 'TAG', 'TREE', 'FLEX', 'KIND', 'FNEW', 'FAILAT'), (k, n, tag, tree, flex, kind, fnew, fat))], unwind=5, native=False,
                       drop=['metac_new_memory_entry', 'metac_memory_entry_delete'], contracts=['metac_new_value_memory_map_ex', '_failed_memory_entry_delete']))
    def e(name, m, fns, defs=(), unwind=5, drop=(), **kw):
        us.append(Unit(name, 'ment.c', ['value_deep.c'], ['-DMODE=%d' % m] + list(defs), unwind=unwind, native=False, drop=list(drop), contracts=fns, **kw))
    e('entry[new]', 1, ['metac_new_memory_entry'], unwind=7, kind='bounded', bound='up to 5 parts')
    for n, m, h in ((0, 0, 0), (1, 2, 1), (2, 0, 3), (2, 2, 3), (2, 1, 1), (2, 1, 2)):
        e('entry[delete,%d,%d,%d]' % (n, m, h), 2, ['metac_memory_entry_delete'], ['-DN=%d' % n, '-DM=%d' % m, '-DHAS=%d' % h], unwind=14, kind='bounded', bound='a tree of up to 5 entries')
    if which == 1:
        e('entry[parent]', 3, ['metac_memory_entry_parent'], unwind=12, kind='bounded', bound='up to 6 levels')
    if which == 2:
        e('delete[any block]', 4, ['metac_value_free_ex', '_value_free'], drop=['metac_new_value_memory_map_ex', 'metac_value_memory_map_delete'])
    if which < 3:
        for n in (1, 2, 3):
            e('blocks[%d]' % n, 5, ['_identify_allocatable_entries', '_store_hash_map_entry', '_sort_addr_'], ['-DN=%d' % n], kind='bounded', bound='%d blocks in a window of 24 bytes' % n)
    return us


for _k, _w in (('C08', 1), ('C09', 2), ('C10', 3)):
    PROPS[_k]['units'] += msteps(_w)

# C15 (and C18 for the ones with failures): the life of one task of the walk that renders a value
SSTEP = """
K=0
K=0 SF=1
K=1
K=1 SF=1
K=2 DEEP=0
K=2 DEEP=0 SF=1
K=2 PTR=0
K=2 PTR=0 SF=1
K=2 PTR=1
K=2 PTR=1 TAG=1
K=2 PTR=1 TAG=2
K=2 PTR=1 TAG=3
K=2 PTR=1 TAG=3 HF=1
K=2 PTR=1 TAG=3 HF=2
K=2 PTR=1 TAG=3 HF=3
K=2 PTR=2
K=2 PTR=2 SF=1
K=2 PTR=2 TAG=3
K=2 PTR=2 TAG=3 HF=1
K=2 PTR=3
K=2 PTR=4
K=2 FAILAT=1
K=2 RF=1
K=2 NODECL=1
K=2 QUOTE=1
K=2 NOMEM=1
K=2 NOMEM=2
K=3 N=0
K=3 N=1
K=3 N=2
K=3 N=3
K=3 N=3 EMPTY=1
K=3 N=3 EMPTY=2
K=3 N=3 EMPTY=7
K=3 N=3 ANON=1
K=3 N=3 ANON=6
K=3 N=2 SELF=1
K=3 N=2 SELF=2
K=3 N=0 SELF=2
K=3 N=3 FNEW=1
K=3 N=3 FNEW=3
K=3 N=3 FAILAT=2
K=3 N=3 RF=1
K=3 N=3 RF=3
K=3 N=2 NOMEM=1
K=3 N=2 NOMEM=2
K=3 N=2 NOMEM=3
K=3 N=0 NOMEM=1
K=4 N=0
K=4 N=2
K=4 N=2 TAG=1
K=4 N=2 TAG=2
K=4 N=2 TAG=3
K=4 N=2 TAG=3 HF=1
K=4 N=2 TAG=3 HF=2
K=4 N=2 TAG=3 SELF=2
K=4 N=2 TAG=3 FAILAT=1
K=4 N=2 TAG=3 RF=1
K=4 N=2 TAG=3 ANON=1
K=5 N=0
K=5 N=1
K=5 N=3
K=5 N=3 EMPTY=2
K=5 N=3 FNEW=2
K=5 N=3 FAILAT=2
K=5 N=3 RF=2
K=5 N=2 NOMEM=1
K=5 N=2 NOMEM=2
K=5 N=2 NOMEM=3
K=5 FLEX=1 N=2
K=5 FLEX=1 N=2 TAG=1
K=5 FLEX=1 N=2 TAG=2
K=5 FLEX=1 N=2 TAG=3
K=5 FLEX=1 N=2 TAG=3 HF=1
K=5 FLEX=1 N=2 TAG=3 HF=2
K=5 FLEX=1 N=2 TAG=3 FNEW=2
K=5 FLEX=1 N=2 TAG=3 FAILAT=2
K=6 N=0
K=6 N=3
K=6 N=3 EMPTY=5
K=6 N=2 FNEW=2
K=6 N=2 FAILAT=1
K=6 N=2 RF=1
K=6 N=2 NOMEM=2
K=6 N=2 NOMEM=3
K=7 N=0
K=7 N=3
K=7 N=3 QUOTE=2
K=7 N=2 VALIST=1
K=7 N=0 VALIST=1
K=7 N=2 NODECL=1
K=7 N=2 FNEW=2
K=7 N=2 FAILAT=2
K=7 N=2 RF=2
K=7 N=2 NOMEM=1
K=7 N=2 NOMEM=2
K=7 N=2 NOMEM=4
K=7 N=2 VALIST=1 NOMEM=5
K=8 N=0
K=8 N=3
K=8 N=2 RF=2
K=9
"""


def ssteps(which):
    us = []
    KN = ['int', 'enum', 'pointer', 'struct', 'union', 'array', 'call', 'variable parameters', 'call by pointer', 'other']
    base = dict(DEEP=1, FLEX=0, EMPTY=0, ANON=0, QUOTE=0, SELF=0, VALIST=0, FNEW=0, FAILAT=0, RF=0, NOMEM=0, HF=0, PTR=1, NODECL=0, TAG=0, SF=0, N=0)
    def fl(d):
        return ['-D__NO_CTYPE'] + ['-D%s=%d' % kv for kv in d.items()]
    for l in SSTEP.split('\n'):
        if not l.strip():
            continue
        d = {a: int(b) for a, b in (x.split('=') for x in l.split())}
        fails = any(d.get(x) for x in ('FNEW', 'FAILAT', 'RF', 'NOMEM', 'NODECL', 'SF')) or d.get('HF', 0) >= 2
        if which == 'C18' and not fails:
            continue
        name = 'text[%s%s]' % (KN[d['K']], ''.join(',%s %d' % (a.lower(), b) for a, b in d.items() if a != 'K'))
        us.append(Unit(name, 'sstep.c', ['value_string.c'], ['-DMODE=1'] + fl(dict(base, **d)), unwind=57, cbmc=['--no-malloc-may-fail'], native=False, kind='bounded', bound='up to 3 parts, texts of parts by representatives',
                       contracts=['metac_value_string_ex']))
    if which == 'C15':
        for n, p, f in [(3, 0, f) for f in range(0, 256, 32)] + [(3, 1, 0), (3, 1, 32), (3, 1, 64), (3, 2, 0), (2, 0, 0), (2, 0, 64), (1, 0, 0)]:
            us.append(Unit('literal[%d,%d,%d..%d]' % (n, p, f, f + 31), 'sstep.c', ['value_string.c'], ['-DMODE=2', '-DLEN=%d' % n, '-DPLACE=%d' % p, '-DFROM=%d' % f] + fl({k: v for k, v in dict(base, K=5).items() if k != 'N'}), unwind=33,
                           cbmc=['--no-malloc-may-fail', '--object-bits', '14'], native=False, kind='bounded', bound='arrays of up to 3 char', contracts=['_dprintable_string', 'metac_value_string_ex']))
        for n in (0, 3, 5, 12):
            us.append(Unit('dsprintf[%d]' % n, 'sstep.c', [], ['-DMODE=3', '-DL=%d' % n], unwind=20, cbmc=['--no-malloc-may-fail'], native=False, kind='bounded', bound='texts of 0, 3, 5 and 12 characters, a buffer of 8', contracts=['dsprintf']))
    return us


PROPS['C15']['units'] += ssteps('C15')
PROPS['C18']['units'] += ssteps('C18')

# C16 (and C18): the life of one task of the walk that writes a declaration
CSTEP = """
K=0 TY=0
K=0 TY=1
K=0 TY=2
K=0 FAILAT=1
K=0 RF=1
K=0 NOMEM=1
K=1
K=1 NOMEM=1
K=2
K=2 NOMEM=1
K=3
K=3 NOMEM=1
K=3 NAMED=0 N=0
K=3 NAMED=0 N=3
K=3 NAMED=0 N=3 NOMEM=1
K=3 NAMED=0 N=3 NOMEM=3
K=3 NAMED=0 N=3 NOMEM=4
K=4 TY=0
K=4 TY=1 COUNT=0
K=4 TY=1 COUNT=-1
K=4 TY=2 OF=1 COUNT=4294967297
K=4 FAILAT=1
K=4 RF=1
K=4 NOMEM=1
K=5 TY=0
K=5 QK=0
K=5 QK=1 OF=1 TY=2
K=5 QK=2 OF=2
K=5 QK=3 OF=3 TY=2
K=5 QK=4 OF=4 TY=2
K=5 QK=5 OF=5
K=5 QK=0 OF=2 TY=2
K=5 FAILAT=1
K=5 RF=1
K=5 NOMEM=1
K=6 TY=0
K=6 TY=1
K=6 TY=2 OF=1
K=6 TY=2 OF=2
K=6 TY=2 OF=3
K=6 TY=2 OF=4
K=6 TY=1 OF=5
K=6 FAILAT=1
K=6 RF=1
K=6 NOMEM=1
K=7
K=7 NOMEM=1
K=7 NAMED=0 N=0
K=7 NAMED=0 N=3
K=7 NAMED=0 N=3 NONAME=5
K=7 NAMED=0 N=2 NONAME=2
K=7 NAMED=0 N=2 BITS=1
K=7 NAMED=0 N=3 BITS=7
K=7 NAMED=0 N=3 NOTY=2
K=7 NAMED=0 N=3 NOTY=1 NONAME=1
K=7 NAMED=0 N=3 FAILAT=2
K=7 NAMED=0 N=3 RF=1
K=7 NAMED=0 N=3 RF=3
K=7 NAMED=0 N=2 NOMEM=1
K=7 NAMED=0 N=2 NOMEM=2
K=7 NAMED=0 N=2 NOMEM=3
K=7 NAMED=0 N=2 NOMEM=4
K=7 NAMED=0 N=2 NOMEM=6
K=7 NAMED=0 N=2 NOMEM=7
K=8
K=8 NAMED=0 N=3
K=8 NAMED=0 N=2 BITS=2
K=9 TY=0 N=0
K=9 TY=1 N=0
K=9 TY=2 N=3
K=9 N=3 NONAME=2
K=9 N=3 NONAME=5
K=9 N=3 UNSPEC=4
K=9 N=1 UNSPEC=1
K=9 N=2 NOTY=2
K=9 N=3 FAILAT=1
K=9 N=3 FAILAT=3
K=9 N=3 RF=1
K=9 N=3 RF=2
K=9 N=3 RF=4
K=9 N=2 NOMEM=1
K=9 N=2 NOMEM=2
K=9 N=2 NOMEM=4
K=9 N=2 NOMEM=5
K=9 N=2 NOMEM=6
K=9 N=2 UNSPEC=2 NOMEM=3
K=10 TY=0 N=0
K=10 TY=1 N=0
K=10 TY=2 N=3
K=10 N=3 UNSPEC=4
K=10 N=2 NOTY=2
K=10 N=3 FAILAT=1
K=10 N=3 FAILAT=2
K=10 N=3 RF=1
K=10 N=3 RF=3
K=10 N=2 NOMEM=1
K=10 N=2 NOMEM=2
K=10 N=2 NOMEM=4
K=10 N=2 NOMEM=5
K=10 N=2 NOMEM=6
K=11
"""


def declsteps(which):
    us = []
    KN = ['variable', 'typedef', 'base type', 'enumeration', 'array', 'qualifier', 'pointer', 'struct', 'union', 'function', 'function type', 'other']
    base = dict(TY=1, OF=0, N=0, NAMED=1, COUNT=1, NONAME=0, BITS=0, NOTY=0, UNSPEC=0, FAILAT=0, RF=0, NOMEM=0, QK=0)
    for l in CSTEP.split('\n'):
        if not l.strip():
            continue
        d = {a: int(b) for a, b in (x.split('=') for x in l.split())}
        if which == 'C18' and not any(d.get(x) for x in ('FAILAT', 'RF', 'NOMEM')):
            continue
        name = 'declaration[%s%s]' % (KN[d['K']], ''.join(',%s %d' % (a.lower(), b) for a, b in d.items() if a != 'K'))
        us.append(Unit(name, 'cstep.c', ['entry_cdecl.c'], ['-D%s=%d' % kv for kv in dict(base, **d).items()], unwind=65, cbmc=['--no-malloc-may-fail'], native=False, kind='bounded', bound='up to 3 parts, texts of parts by representatives', contracts=['metac_entry_cdecl']))
    if which == 'C16':
        for n in (0, 3, 5, 12):
            us.append(Unit('dsprintf[%d]' % n, 'sstep.c', [], ['-DMODE=3', '-DL=%d' % n], unwind=20, cbmc=['--no-malloc-may-fail'], native=False, kind='bounded', bound='texts of 0, 3, 5 and 12 characters, a buffer of 8', contracts=['dsprintf']))
        for n in (0, 1, 4, 9):
            us.append(Unit('trim[%d]' % n, 'sstep.c', [], ['-DMODE=4', '-DL=%d' % n], unwind=n + 2, native=False, kind='bounded', bound='texts of 0, 1, 4 and 9 characters', contracts=['trim_trailing_spaces']))
    return us


PROPS['C16']['units'] += declsteps('C16')
PROPS['C18']['units'] += declsteps('C18')

# C12: parameters taken from a variable argument list
CAPTURE = """
TA=4 TB=0 TC=12
TA=4 TB=1 TC=12
TA=4 TB=2 TC=12
TA=4 TB=3 TC=12
TA=4 TB=4 TC=12
TA=4 TB=5 TC=12
TA=4 TB=6 TC=12
TA=4 TB=7 TC=12
TA=4 TB=8 TC=12
TA=4 TB=9 TC=12
TA=4 TB=10 TC=12
TA=4 TB=11 TC=12
TA=4 TB=12 TC=12
TA=4 TB=17 TC=12
TA=4 TB=18 TC=12
TA=4 TB=19 TC=12
TA=4 TB=20 TC=12
TA=4 TB=21 TC=12
TA=4 TB=22 TC=12
TA=4 TB=25 TC=12
TA=4 TB=26 TC=12
TA=4 TB=27 TC=12
TA=1 TB=6 TC=0 V=1
TA=5 TB=6 TC=0 V=1
TA=11 TB=6 TC=0 V=1
TA=17 TB=6 TC=0 V=1
TA=22 TB=6 TC=0 V=1
TA=25 TB=6 TC=0 V=1
N=0 TA=6 TB=11
N=1 TA=6 TB=11
N=2 TA=6 TB=11
FAPP=1
FNEW=1
FAPP=2
FNEW=2
FAPP=3
FNEW=3
TA=4 TB=12 TC=23 TAG=0
TA=4 TB=24 TC=11 TAG=0
TA=4 TB=12 TC=23 TAG=1
TA=4 TB=24 TC=11 TAG=1
TA=4 TB=12 TC=23 TAG=2
TA=4 TB=24 TC=11 TAG=2
TA=4 TB=12 TC=23 TAG=3
TA=4 TB=24 TC=11 TAG=3
TA=4 TB=12 TC=23 TAG=4
TA=4 TB=24 TC=11 TAG=4
TA=22 TB=17 TC=23 TAG=3
TB=24 TC=23 TAG=3
TB=24 TC=6 TAG=3 V=1
TB=4 TC=23 TAG=3 FNEW=3
TB=4 TC=23 TAG=3 FAPP=3
TB=22 FAPP=2
TB=17 FNEW=2
TB=20 FNEW=2
TB=22 FNEW=2
TB=20 FAPP=2
TB=17 FAPP=2
"""


def captures():
    us = []
    base = dict(N=3, TA=4, TB=4, TC=6, FAPP=0, FNEW=0, TAG=1, V=0)
    TN = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'bool', 'float', 'double', '', '', '', '', 'pointer', 'enum1', 'enum2', 'enum4', 'enum8', 'struct', '...', 'va_list', 'typedef', 'unknown', 'wrong size']
    for l in CAPTURE.split('\n'):
        if not l.strip():
            continue
        d = dict(base, **{a: int(b) for a, b in (x.split('=') for x in l.split())})
        name = 'call(%s)%s%s%s%s' % (','.join(TN[d[x]] for x in ('TA', 'TB', 'TC')[:d['N']]), '[by va_list]' if d['V'] else '', '[tag %d]' % d['TAG'] if d['TAG'] != 1 else '', '[append %d fails]' % d['FAPP'] if d['FAPP'] else '', '[value %d fails]' % d['FNEW'] if d['FNEW'] else '')
        us.append(Unit(name, 'capture.c', ['entry.c', 'value_with_args.c'], ['-D%s=%d' % kv for kv in d.items()], unwind=33, cbmc=['--no-malloc-may-fail'], native=False, kind='bounded', bound='up to 3 parameters, any content',
                       drop=['metac_parameter_storage_append_by_buffer', 'metac_parameter_storage_append_by_parameter_storage', 'metac_parameter_storage_new_param_value'], contracts=['metac_value_parameter_wrap', 'metac_value_parameter_vwrap', '_handle_subprogram']))
    return us


PROPS['C12']['units'] += captures()
