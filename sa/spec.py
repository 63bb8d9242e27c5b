"""What the library's types and wire elements are, taken from the public headers and the
SML specification.  Struct layouts (offsets, sizes) are read from the debug information
of the current tree; only names and wire order are fixed here."""

# ---------------------------------------------------------------- wire layouts
# element kinds: octet u8 u16 u32 u64 i8 i16 i64 bool status value time list tree treepath
# ppv period tupel body seq:<elem> objlist
LAYOUT = {
    'sml_open_request': [('codepage', 'octet'), ('client_id', 'octet'), ('req_file_id', 'octet'), ('server_id', 'octet'),
                         ('username', 'octet'), ('password', 'octet'), ('sml_version', 'u8')],
    'sml_open_response': [('codepage', 'octet'), ('client_id', 'octet'), ('req_file_id', 'octet'), ('server_id', 'octet'),
                          ('ref_time', 'time'), ('sml_version', 'u8')],
    'sml_close_request': [('global_signature', 'octet')],
    'sml_get_profile_pack_request': [('server_id', 'octet'), ('username', 'octet'), ('password', 'octet'),
                                     ('with_rawdata', 'bool'), ('begin_time', 'time'), ('end_time', 'time'),
                                     ('parameter_tree_path', 'treepath'), ('object_list', 'objlist'), ('das_details', 'tree')],
    'sml_get_profile_pack_response': [('server_id', 'octet'), ('act_time', 'time'), ('reg_period', 'u32'),
                                      ('parameter_tree_path', 'treepath'), ('header_list', 'seq:sml_prof_obj_header_entry'),
                                      ('period_list', 'seq:sml_prof_obj_period_entry'), ('rawdata', 'octet'),
                                      ('profile_signature', 'octet')],
    'sml_get_profile_list_response': [('server_id', 'octet'), ('act_time', 'time'), ('reg_period', 'u32'),
                                      ('parameter_tree_path', 'treepath'), ('val_time', 'time'), ('status', 'u64'),
                                      ('period_list', 'seq:sml_period_entry'), ('rawdata', 'octet'),
                                      ('period_signature', 'octet')],
    'sml_get_proc_parameter_request': [('server_id', 'octet'), ('username', 'octet'), ('password', 'octet'),
                                       ('parameter_tree_path', 'treepath'), ('attribute', 'octet')],
    'sml_get_proc_parameter_response': [('server_id', 'octet'), ('parameter_tree_path', 'treepath'), ('parameter_tree', 'tree')],
    'sml_set_proc_parameter_request': [('server_id', 'octet'), ('username', 'octet'), ('password', 'octet'),
                                       ('parameter_tree_path', 'treepath'), ('parameter_tree', 'tree')],
    'sml_get_list_request': [('client_id', 'octet'), ('server_id', 'octet'), ('username', 'octet'), ('password', 'octet'),
                             ('list_name', 'octet')],
    'sml_get_list_response': [('client_id', 'octet'), ('server_id', 'octet'), ('list_name', 'octet'),
                              ('act_sensor_time', 'time'), ('val_list', 'list'), ('list_signature', 'octet'),
                              ('act_gateway_time', 'time')],
    'sml_attention_response': [('server_id', 'octet'), ('attention_number', 'octet'), ('attention_message', 'octet'),
                               ('attention_details', 'tree')],
    'sml_message': [('transaction_id', 'octet'), ('group_id', 'u8'), ('abort_on_error', 'u8'), ('message_body', 'body'),
                    ('crc', 'u16')],
    'sml_list_entry': [('obj_name', 'octet'), ('status', 'status'), ('val_time', 'time'), ('unit', 'u8'), ('scaler', 'i8'),
                       ('value', 'value'), ('value_signature', 'octet')],
    'sml_tupel_entry': [('server_id', 'octet'), ('sec_index', 'time'), ('status', 'u64'),
                        ('unit_pA', 'u8'), ('scaler_pA', 'i8'), ('value_pA', 'i64'),
                        ('unit_R1', 'u8'), ('scaler_R1', 'i8'), ('value_R1', 'i64'),
                        ('unit_R4', 'u8'), ('scaler_R4', 'i8'), ('value_R4', 'i64'),
                        ('signature_pA_R1_R4', 'octet'),
                        ('unit_mA', 'u8'), ('scaler_mA', 'i8'), ('value_mA', 'i64'),
                        ('unit_R2', 'u8'), ('scaler_R2', 'i8'), ('value_R2', 'i64'),
                        ('unit_R3', 'u8'), ('scaler_R3', 'i8'), ('value_R3', 'i64'),
                        ('signature_mA_R2_R3', 'octet')],
    'sml_period_entry': [('obj_name', 'octet'), ('unit', 'u8'), ('scaler', 'i8'), ('value', 'value'), ('value_signature', 'octet')],
    'sml_prof_obj_header_entry': [('obj_name', 'octet'), ('unit', 'u8'), ('scaler', 'i8')],
    'sml_prof_obj_period_entry': [('val_time', 'time'), ('status', 'u64'), ('value_list', 'seq:sml_value_entry'),
                                  ('period_signature', 'octet')],
    'sml_value_entry': [('value', 'value'), ('value_signature', 'octet')],
}
# number of wire elements when it differs from the number of fields
WIRE_COUNT = {'sml_message': 6}

MSG_TAGS = {
    0x100: 'sml_open_request', 0x101: 'sml_open_response',
    0x200: 'sml_close_request', 0x201: 'sml_close_request',
    0x300: 'sml_get_profile_pack_request', 0x301: 'sml_get_profile_pack_response',
    0x400: 'sml_get_profile_pack_request', 0x401: 'sml_get_profile_list_response',
    0x500: 'sml_get_proc_parameter_request', 0x501: 'sml_get_proc_parameter_response',
    0x600: 'sml_set_proc_parameter_request',
    0x700: 'sml_get_list_request', 0x701: 'sml_get_list_response',
    0xFF01: 'sml_attention_response',
}
# (the close response has the layout of the close request, the profile list request that of
#  the profile pack request: typedefs in the public headers)

PPV_TAGS = {1: 'sml_value', 2: 'sml_period_entry', 3: 'sml_tupel_entry', 4: 'sml_time'}

# element kind -> object spec of the decoded value
KIND_SPEC = {
    'octet': 'octet_string', 'u8': 'num1', 'u16': 'num2', 'u32': 'num4', 'u64': 'num8',
    'i8': 'num1', 'i16': 'num2', 'i32': 'num4', 'i64': 'num8', 'bool': 'num1',
    'status': 'sml_status', 'value': 'sml_value', 'time': 'sml_time', 'list': 'sml_list_entry',
    'tree': 's_tree', 'treepath': 'sml_tree_path', 'ppv': 'sml_proc_par_value',
    'period': 'sml_period_entry', 'tupel': 'sml_tupel_entry', 'body': 'sml_message_body',
    'message': 'sml_message', 'objlist': 'sml_obj_req_entry_list_entry',
}
SPEC_KIND = {'octet_string': 'octet', 'sml_status': 'status', 'sml_value': 'value', 'sml_time': 'time',
             'sml_list_entry': 'list', 's_tree': 'tree', 'sml_tree_path': 'treepath', 'sml_proc_par_value': 'ppv',
             'sml_period_entry': 'period', 'sml_tupel_entry': 'tupel', 'sml_message_body': 'body', 'sml_message': 'message'}

# objects that may be absent where a write function takes them
NULLABLE_WRITE = {'octet_string', 'sml_status', 'sml_value', 'sml_time', 'sml_list_entry', 's_tree', 'sml_tree_path',
                  'sml_proc_par_value', 'sml_period_entry', 'sml_tupel_entry', 'sml_sequence'}

# sequence elements that are always present after parsing
SEQ_ELEM_NONNULL = {'sml_prof_obj_header_entry', 'sml_prof_obj_period_entry', 'sml_value_entry'}

SEQ_OF = {('sml_get_profile_pack_response', 'header_list'): 'sml_prof_obj_header_entry',
          ('sml_get_profile_pack_response', 'period_list'): 'sml_prof_obj_period_entry',
          ('sml_get_profile_list_response', 'period_list'): 'sml_period_entry',
          ('sml_prof_obj_period_entry', 'value_list'): 'sml_value_entry'}

TYPE_OCTET, TYPE_BOOL, TYPE_INT, TYPE_UINT, TYPE_LIST = 0, 0x40, 0x50, 0x60, 0x70


class Field:
    __slots__ = ('off', 'size', 'kind', 'sub', 'name')

    def __init__(self, off, size, kind, sub, name):
        self.off, self.size, self.kind, self.sub, self.name = off, size, kind, sub, name

    def __repr__(self):
        return '%s@%d:%s %s' % (self.name, self.off, self.kind, self.sub)


class Spec:
    def __init__(self, name, size):
        self.name, self.size = name, size
        self.fields = {}
        self.byname = {}
        self.num = None       # block of that many bytes

    def add(self, f):
        self.fields[f.off] = f
        self.byname[f.name] = f

    def __repr__(self):
        return 'Spec(%s)' % self.name


def strip_name(n):
    """IR struct type name -> spec name"""
    if n is None:
        return None
    if n.startswith('struct.'):
        n = n[7:]
    p = n.rsplit('.', 1)
    if len(p) == 2 and p[1].isdigit():
        n = p[0]
    return n


class Specs:
    """specs by name, with layouts from debug info"""

    def __init__(self, prog):
        self.s = {}
        for n in (1, 2, 4, 8):
            sp = Spec('num%d' % n, n)
            sp.num = n
            self.s[sp.name] = sp
        sp = Spec('bytes', None)
        self.s['bytes'] = sp
        self.typedef = {}       # typedef name -> spec name
        for m in prog.mods:
            di = m.di
            for n, txt in m.md.items():
                if 'DICompositeType' not in txt and 'DW_TAG_typedef' not in txt:
                    continue
                k, d = di.node(n)
                if k == 'DIDerivedType' and d.get('tag') == 'DW_TAG_typedef':
                    st = di.strip('!%d' % n)
                    if st[0] == 'structure':
                        kk, dd = di.node(st[2])
                        nm = dd.get('name') or self._final_name(di, n)
                        self.typedef[d['name']] = nm
                        if nm not in self.s:
                            self._mk(di, nm, st[2])
                elif k == 'DICompositeType' and d.get('tag') == 'DW_TAG_structure_type' and d.get('name'):
                    if d['name'] not in self.s:
                        self._mk(di, d['name'], '!%d' % n)

    def _final_name(self, di, n):
        """the typedef that directly names an anonymous struct"""
        while True:
            k, d = di.node(n)
            b = d.get('baseType')
            kk, dd = di.node(b)
            if kk == 'DIDerivedType' and dd.get('tag') == 'DW_TAG_typedef':
                n = int(b[1:])
                continue
            return d['name']

    def ref(self, di, t):
        """type reference -> spec name ('num1', 'octet_string', ..) for a pointed-to type"""
        st = di.strip(t)
        if st[0] == 'int':
            return 'num%d' % (st[1] // 8)
        if st[0] == 'structure':
            kk, dd = di.node(st[2])
            if dd.get('name'):
                return dd['name']
            # anonymous: walk typedef chain
            n = t
            last = None
            while n and n != 'null':
                k, d = di.node(n)
                if k == 'DIDerivedType':
                    if d.get('tag') == 'DW_TAG_typedef':
                        last = d.get('name')
                    n = d.get('baseType')
                else:
                    break
            return last
        return None

    def _mk(self, di, nm, node):
        k, d = di.node(node)
        if not d.get('elements'):
            return
        sp = Spec(nm, int(d.get('size', 0)) // 8)
        self.s[nm] = sp
        for (fn, off, size, bt, dd) in di.members(node):
            if 'flags' in dd and 'BitField' in dd.get('flags', ''):
                sp.add(Field(off // 8, 1, 'int', None, fn))
                continue
            st = di.strip(bt)
            if st[0] == 'ptr':
                t2 = di.strip(st[1])
                if t2[0] == 'fn':
                    sp.add(Field(off // 8, 8, 'fn', None, fn))
                elif t2[0] == 'ptr':
                    sp.add(Field(off // 8, 8, 'arr', self.ref(di, t2[1]), fn))
                else:
                    sub = self.ref(di, st[1])
                    sp.add(Field(off // 8, 8, 'ptr', sub, fn))
            elif st[0] == 'union':
                # a union of pointers
                sp.add(Field(off // 8, size // 8, 'union', None, fn))
            elif st[0] in ('int', 'enumeration'):
                sp.add(Field(off // 8, size // 8, 'int', None, fn))
            else:
                sp.add(Field(off // 8, size // 8, 'other', None, fn))

    def get(self, n):
        return self.s.get(n)

    def off(self, sname, fname):
        return self.s[sname].byname[fname].off
