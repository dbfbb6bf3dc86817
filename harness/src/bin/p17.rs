//! P17: blueprint bytecode.
use harness as h;
use harness::{arch::Cfg, prop::*, Enc};
use unreal_asset_base::{object_version::ObjectVersion, reader::ArchiveTrait, types::{vector::{Transform, Vector, Vector4}, FName, PackageIndex}};
use unreal_asset_kismet::{EExprToken as T, *};
type E = KismetExpression;

/// bytes on disk and size in memory (object and property references take 8 bytes there, names 12)
struct B { c: Cfg, e: Vec<u8>, m: usize, deep: u32 }
impl B {
    fn put(&mut self, b: &[u8], m: usize) { self.e.extend_from_slice(b); self.m += m }
    fn tok(&mut self, t: u8) { self.put(&[t], 1) }
    fn u8(&mut self) -> u8 { let v = h::u8(); self.put(&[v], 1); v }
    fn u16(&mut self) -> u16 { let v = h::u16(); self.put(&v.to_le_bytes(), 2); v }
    fn u32(&mut self) -> u32 { let v = h::u32(); self.put(&v.to_le_bytes(), 4); v }
    fn i32(&mut self) -> i32 { self.u32() as i32 }
    fn u64(&mut self) -> u64 { let v = h::u64(); self.put(&v.to_le_bytes(), 8); v }
    fn count(&mut self, n: i32) { self.put(&n.to_le_bytes(), 4) }
    fn obj(&mut self) -> PackageIndex { let v = h::i32(); self.put(&v.to_le_bytes(), 8); PackageIndex::new(v) }
    fn name(&mut self) -> FName { let (i, n) = (1 + h::choice(2) as i32, h::i32()); self.named(i, n) }
    fn named(&mut self, i: i32, n: i32) -> FName { self.put(&Enc::new().name(i, n).0, 12); FName::new(i, n, self.c.names.clone()) }
    fn ptr(&mut self) -> KismetPropertyPointer {
        if obj(&self.c) >= 518 {
            let n = h::choice(3) as i32;
            self.put(&n.to_le_bytes(), 8);
            let mut l = vec![];
            for j in 0..n { let k = h::i32(); self.put(&Enc::new().name(1 + 2 * j, k).0, 0); l.push(FName::new(1 + 2 * j, k, self.c.names.clone())) }
            let o = h::i32();
            self.put(&o.to_le_bytes(), 0);
            KismetPropertyPointer { old: None, new: Some(FieldPath { path: l, resolved_owner: PackageIndex::new(o) }) }
        } else { KismetPropertyPointer { old: Some(self.obj()), new: None } }
    }
    /// a nested expression
    fn sub(&mut self) -> E {
        match if self.deep == 0 { h::choice(2) } else { h::choice(6) } {
            0 => { self.tok(0x1D); ExIntConst { token: T::ExIntConst, value: self.i32() }.into() }
            1 => { self.tok(0x17); ExSelf::default().into() }
            2 => { self.tok(0x0B); ExNothing::default().into() }
            3 => { self.tok(0x24); ExByteConst { token: T::ExByteConst, value: self.u8() }.into() }
            4 => { self.deep -= 1; self.tok(0x1C); ExFinalFunction { token: T::ExFinalFunction, stack_node: self.obj(), parameters: self.list(0x16, 2) }.into() }
            _ => { self.deep -= 1; self.tok(0x2E); ExDynamicCast { token: T::ExDynamicCast, class_ptr: self.obj(), target_expression: self.ex() }.into() }
        }
    }
    fn ex(&mut self) -> Box<E> { Box::new(self.sub()) }
    fn items(&mut self, n: u64, end: u8) -> Vec<E> { let mut l = vec![]; for _ in 0..n { l.push(self.sub()) } self.tok(end); l }
    fn list(&mut self, end: u8, max: u64) -> Vec<E> { let n = h::choice(max + 1); self.items(n, end) }
    fn counted(&mut self, end: u8) -> Vec<E> { let n = h::choice(3); self.count(n as i32); self.items(n, end) }
    /// keys and values, counted in pairs
    fn pairs(&mut self, end: u8) -> Vec<E> { let n = h::choice(2); self.count(n as i32); self.items(2 * n, end) }
}
fn bld(c: &Cfg, deep: u32) -> B { B { c: c.clone(), e: vec![], m: 0, deep } }
fn judge(b: B, f: &dyn Fn(&E) -> bool) {
    let mut rd = b.c.rd(Enc(b.e.clone()).any(2).0);
    let x = h::must(E::new(&mut rd), 1);
    h::check(rd.position() == b.e.len() as u64, 2);
    h::check(f(&x), 3);
    h::check(u8::from(x.get_token()) == b.e[0], 4);
    let (out, r) = b.c.wr(|w| KismetExpression::write(&x, w));
    h::check(h::must(r, 5) == b.m, 6);
    h::check(out.len() == b.e.len(), 7);
    h::check(h::same(&out, &b.e), 8);
    #[cfg(feature = "moved")]
    harness::prop::moved(&b.c, &x, &|x, w| KismetExpression::write(x, w).map(|_| ()));
}
fn is(b: B, x: E) { judge(b, &|y| x == *y) }
fn version(k: u64) -> Cfg { let (o, u) = [(517, 0), (518, 0), (522, 1010)][k as usize]; cfg(o, u, &[]) }
fn ver2() -> Cfg { version([0, 2][h::choice(2) as usize]) }

/// instructions without operands
fn bare_ops() {
    let c = ver2();
    let mut b = bld(&c, 0);
    macro_rules! t { ($($n:ident $v:expr),*) => {{ let l: Vec<(u8, E)> = vec![$(($v, $n::default().into())),*]; l }} }
    let mut l = t!(ExNothing 0x0B, ExEndParmValue 0x15, ExEndFunctionParms 0x16, ExSelf 0x17, ExIntZero 0x25, ExIntOne 0x26, ExTrue 0x27, ExFalse 0x28, ExNoObject 0x2A, ExNoInterface 0x2D, ExEndStructConst 0x30, ExEndArray 0x32,
        ExEndSet 0x3A, ExEndMap 0x3C, ExEndSetConst 0x3E, ExEndMapConst 0x40, ExDeprecatedOp4A 0x4A, ExPopExecutionFlow 0x4D, ExBreakpoint 0x50, ExEndOfScript 0x53, ExWireTracepoint 0x5A, ExTracepoint 0x5E, ExEndArrayConst 0x66);
    let k = h::choice(l.len() as u64) as usize;
    let (t, x) = l.swap_remove(k);
    b.tok(t);
    is(b, x)
}
/// numbers, names, objects and property references
fn leaf_ops() {
    let c = version(h::choice(3));
    let mut b = bld(&c, 0);
    macro_rules! one { ($t:expr, $n:ident { $f:ident: $v:expr }) => {{ b.tok($t); let $f = $v; $n { token: T::$n, $f }.into() }} }
    let x: E = match h::choice(18) {
        0 => one!(0x00, ExLocalVariable { variable: b.ptr() }),
        1 => one!(0x01, ExInstanceVariable { variable: b.ptr() }),
        2 => one!(0x02, ExDefaultVariable { variable: b.ptr() }),
        3 => one!(0x48, ExLocalOutVariable { variable: b.ptr() }),
        4 => one!(0x6C, ExClassSparseDataVariable { variable: b.ptr() }),
        5 => one!(0x33, ExPropertyConst { property: b.ptr() }),
        6 => one!(0x06, ExJump { code_offset: b.u32() }),
        7 => one!(0x4C, ExPushExecutionFlow { pushing_address: b.u32() }),
        8 => one!(0x1D, ExIntConst { value: b.i32() }),
        9 => one!(0x5B, ExSkipOffsetConst { value: b.u32() }),
        10 => one!(0x24, ExByteConst { value: b.u8() }),
        11 => one!(0x2C, ExIntConstByte { value: b.u8() }),
        12 => one!(0x35, ExInt64Const { value: b.u64() as i64 }),
        13 => one!(0x36, ExUInt64Const { value: b.u64() }),
        14 => one!(0x20, ExObjectConst { value: b.obj() }),
        15 => one!(0x21, ExNameConst { value: b.name() }),
        16 => one!(0x4B, ExInstanceDelegate { function_name: b.name() }),
        _ => {
            b.tok(0x6A);
            let v = h::choice(17) as u8;
            b.put(&[v], 1);
            let event_name = if v == 4 { Some(b.name()) } else { None };
            ExInstrumentationEvent { token: T::ExInstrumentationEvent, event_type: h::must(EScriptInstrumentationType::try_from(v), 900), event_name }.into()
        }
    };
    is(b, x)
}
/// floating point constants
fn floats() {
    let c = cfg(522, [0, 1003, 1004, 1010][h::choice(4) as usize], &[]);
    let mut b = bld(&c, 0);
    let big = lwc(&c);
    let mut bits: Vec<u64> = vec![];
    let mut num = |b: &mut B, n: usize| for _ in 0..n { bits.push(if big { b.u64() } else { let x = b.u32(); h::assume(!((x & 0x7f80_0000 == 0x7f80_0000) & (x & 0x7f_ffff != 0))); (f32::from_bits(x) as f64).to_bits() }) };
    let fb = |v: f64| v.to_bits();
    macro_rules! v3 { ($v:expr) => {{ let Vector { x, y, z } = $v; vec![fb(x.0), fb(y.0), fb(z.0)] }} }
    let got: Box<dyn Fn(&E) -> Vec<u64>> = match h::choice(5) {
        0 => { b.tok(0x1E); bits.push(b.u32() as u64); Box::new(|x| if let E::ExFloatConst(x) = x { vec![x.value.0.to_bits() as u64] } else { vec![] }) }
        1 => { b.tok(0x37); bits.push(b.u64()); Box::new(|x| if let E::ExDoubleConst(x) = x { vec![x.value.0.to_bits()] } else { vec![] }) }
        2 => { b.tok(0x22); num(&mut b, 3); Box::new(move |x| if let E::ExRotationConst(x) = x { v3!(&x.rotator) } else { vec![] }) }
        3 => { b.tok(0x23); num(&mut b, 3); Box::new(move |x| if let E::ExVectorConst(x) = x { v3!(&x.value) } else { vec![] }) }
        _ => { b.tok(0x2B); num(&mut b, 10); Box::new(move |x| if let E::ExTransformConst(x) = x {
            let Transform { rotation: Vector4 { x: a, y, z, w }, translation, scale } = &x.value;
            let mut l = vec![fb(a.0), fb(y.0), fb(z.0), fb(w.0)];
            l.extend(v3!(translation)); l.extend(v3!(scale)); l
        } else { vec![] }) }
    };
    judge(b, &|x| { let l = got(x); let mut r = l.len() == bits.len(); if r { for (a, b) in l.iter().zip(&bits) { r &= a == b } } r })
}
/// string constants
fn strings() {
    let c = ver2();
    let mut b = bld(&c, 0);
    if h::flag() {
        b.tok(0x1F);
        let s = match h::choice(3) { 0 => String::new(), 1 => h::ascii(3), _ => { let v = h::u16(); h::assume(v >= 0x800 && v < 0xD800); unsafe { char::from_u32_unchecked(v as u32) }.to_string() } };
        b.put(s.as_bytes(), s.len());
        b.put(&[0], 1);
        judge(b, &|x| matches!(x, E::ExStringConst(x) if h::same(x.value.as_bytes(), s.as_bytes())))
    } else {
        b.tok(0x34);
        let n = h::choice(3);
        let mut s = String::new();
        for _ in 0..n {
            match h::choice(3) {
                0 => { let v = h::u16(); h::assume(v >= 1 && v < 0x80); b.put(&v.to_le_bytes(), 2); s.push(v as u8 as char) }
                1 => { let v = h::u16(); h::assume(v >= 0x800 && v < 0xD800); b.put(&v.to_le_bytes(), 2); s.push(unsafe { char::from_u32_unchecked(v as u32) }) }
                _ => { let (a, d) = (h::u16(), h::u16()); h::assume(a >> 10 == 0x36 && d >> 10 == 0x37); b.put(&a.to_le_bytes(), 2); b.put(&d.to_le_bytes(), 2);
                    s.push(unsafe { char::from_u32_unchecked(0x10000 + (((a & 0x3FF) as u32) << 10 | (d & 0x3FF) as u32)) }) }
            }
        }
        b.put(&[0, 0], 2);
        judge(b, &|x| matches!(x, E::ExUnicodeStringConst(x) if h::same(x.value.as_bytes(), s.as_bytes())))
    }
}
/// one nested expression and operands
fn unary(k: u64) {
    let c = version(if k >= 13 { h::choice(3) } else { 2 * h::choice(2) });
    let mut b = bld(&c, 1);
    macro_rules! op { ($t:expr, $n:ident { $($f:ident: $v:expr),* }) => {{ b.tok($t); $(let $f = $v;)* $n { token: T::$n, $($f),* }.into() }} }
    let x: E = match k {
        0 => op!(0x04, ExReturn { return_expression: b.ex() }),
        1 => op!(0x4E, ExComputedJump { code_offset_expression: b.ex() }),
        2 => op!(0x4F, ExPopExecutionFlowIfNot { boolean_expression: b.ex() }),
        3 => op!(0x51, ExInterfaceContext { interface_value: b.ex() }),
        4 => op!(0x5D, ExClearMulticastDelegate { delegate_to_clear: b.ex() }),
        5 => op!(0x67, ExSoftObjectConst { value: b.ex() }),
        6 => op!(0x6D, ExFieldPathConst { value: b.ex() }),
        7 => op!(0x07, ExJumpIfNot { code_offset: b.u32(), boolean_expression: b.ex() }),
        8 => op!(0x18, ExSkip { code_offset: b.u32(), skip_expression: b.ex() }),
        9 => op!(0x09, ExAssert { line_number: b.u16(), debug_mode: { let v = h::flag(); b.put(&[v as u8], 1); v }, assert_expression: b.ex() }),
        10 => op!(0x13, ExMetaCast { class_ptr: b.obj(), target_expression: b.ex() }),
        11 => op!(0x2E, ExDynamicCast { class_ptr: b.obj(), target_expression: b.ex() }),
        12 => match h::choice(3) {
            0 => op!(0x52, ExObjToInterfaceCast { class_ptr: b.obj(), target: b.ex() }),
            1 => op!(0x54, ExCrossInterfaceCast { class_ptr: b.obj(), target: b.ex() }),
            _ => op!(0x55, ExInterfaceToObjCast { class_ptr: b.obj(), target: b.ex() }),
        },
        13 => op!(0x64, ExLetValueOnPersistentFrame { destination_property: b.ptr(), assignment_expression: b.ex() }),
        14 => op!(0x42, ExStructMemberContext { struct_member_expression: b.ptr(), struct_expression: b.ex() }),
        _ => {
            b.tok(0x38);
            b.deep = 0;
            let conversion_type = if lwc(&c) {
                let v = h::u8();
                h::assume(v <= 0x12 || v == 0xFF);
                b.put(&[v], 1);
                CastToken::New(h::must(NewCastToken::try_from(v), 900))
            } else { let v = [0x46, 0x47, 0x49, 0xFF][h::choice(4) as usize]; b.put(&[v], 1); CastToken::Old(h::must(OldCastToken::try_from(v), 900)) };
            ExPrimitiveCast { token: T::ExPrimitiveCast, conversion_type, target: b.ex() }.into()
        }
    };
    is(b, x)
}
/// two or more nested expressions
fn binary(k: u64) {
    let c = version(h::choice(3));
    let mut b = bld(&c, 1);
    macro_rules! op { ($t:expr, $n:ident { $($f:ident: $v:expr),* }) => {{ b.tok($t); $(let $f = $v;)* $n { token: T::$n, $($f),* }.into() }} }
    let x: E = match k {
        0 => op!(0x14, ExLetBool { variable_expression: b.ex(), assignment_expression: b.ex() }),
        1 => op!(0x43, ExLetMulticastDelegate { variable_expression: b.ex(), assignment_expression: b.ex() }),
        2 => op!(0x44, ExLetDelegate { variable_expression: b.ex(), assignment_expression: b.ex() }),
        3 => op!(0x5F, ExLetObj { variable_expression: b.ex(), assignment_expression: b.ex() }),
        4 => op!(0x60, ExLetWeakObjPtr { variable_expression: b.ex(), assignment_expression: b.ex() }),
        5 => op!(0x5C, ExAddMulticastDelegate { delegate: b.ex(), delegate_to_add: b.ex() }),
        6 => op!(0x62, ExRemoveMulticastDelegate { delegate: b.ex(), delegate_to_add: b.ex() }),
        7 => op!(0x6B, ExArrayGetByRef { array_variable: b.ex(), array_index: b.ex() }),
        8 => op!(0x61, ExBindDelegate { function_name: b.name(), delegate: b.ex(), object_term: b.ex() }),
        9 => op!(0x0F, ExLet { value: b.ptr(), variable: b.ex(), expression: b.ex() }),
        10 => op!(0x12, ExClassContext { object_expression: b.ex(), offset: b.u32(), r_value_pointer: b.ptr(), context_expression: b.ex() }),
        11 => op!(0x19, ExContext { object_expression: b.ex(), offset: b.u32(), r_value_pointer: b.ptr(), context_expression: b.ex() }),
        _ => op!(0x1A, ExContextFailSilent { object_expression: b.ex(), offset: b.u32(), r_value_pointer: b.ptr(), context_expression: b.ex() }),
    };
    is(b, x)
}
/// calls and collections
fn lists(k: u64) {
    let c = if k == 6 { cfg([i32::from(ObjectVersion::VER_UE4_CHANGE_SETARRAY_BYTECODE) - 1, i32::from(ObjectVersion::VER_UE4_CHANGE_SETARRAY_BYTECODE), 522][h::choice(3) as usize], 0, &[]) } else { ver2() };
    let mut b = bld(&c, 1);
    macro_rules! op { ($t:expr, $n:ident { $($f:ident: $v:expr),* }) => {{ b.tok($t); $(let $f = $v;)* $n { token: T::$n, $($f),* }.into() }} }
    let x: E = match k {
        0 => op!(0x1B, ExVirtualFunction { virtual_function_name: b.name(), parameters: b.list(0x16, 3) }),
        1 => op!(0x45, ExLocalVirtualFunction { virtual_function_name: b.name(), parameters: b.list(0x16, 3) }),
        2 => op!(0x1C, ExFinalFunction { stack_node: b.obj(), parameters: b.list(0x16, 3) }),
        3 => op!(0x46, ExLocalFinalFunction { stack_node: b.obj(), parameters: b.list(0x16, 3) }),
        4 => op!(0x68, ExCallMath { stack_node: b.obj(), parameters: b.list(0x16, 3) }),
        5 => { b.tok(0x63); let stack_node = b.obj(); let delegate = b.ex(); let parameters = b.list(0x16, 2); ExCallMulticastDelegate { token: T::ExCallMulticastDelegate, stack_node, parameters, delegate }.into() }
        6 => {
            b.tok(0x31);
            let (assigning_property, array_inner_prop) = if obj(&c) >= i32::from(ObjectVersion::VER_UE4_CHANGE_SETARRAY_BYTECODE) { (Some(b.ex()), None) } else { (None, Some(b.obj())) };
            ExSetArray { token: T::ExSetArray, assigning_property, array_inner_prop, elements: b.list(0x32, 2) }.into()
        }
        7 => op!(0x2F, ExStructConst { struct_value: b.obj(), struct_size: b.i32(), value: b.list(0x30, 3) }),
        8 => op!(0x39, ExSetSet { set_property: b.ex(), elements: b.counted(0x3A) }),
        9 => op!(0x3B, ExSetMap { map_property: b.ex(), elements: b.pairs(0x3C) }),
        10 => op!(0x65, ExArrayConst { inner_property: b.ptr(), elements: b.counted(0x66) }),
        11 => op!(0x3D, ExSetConst { inner_property: b.ptr(), elements: b.counted(0x3E) }),
        _ => op!(0x3F, ExMapConst { key_property: b.ptr(), value_property: b.ptr(), elements: b.pairs(0x40) }),
    };
    is(b, x)
}
fn switch() {
    let mut b = bld(&ver2(), 1);
    b.tok(0x69);
    let n = h::choice(3);
    b.put(&(n as u16).to_le_bytes(), 2);
    let end_goto_offset = b.u32();
    let index_term = b.ex();
    let mut cases = vec![];
    for _ in 0..n { let case_index_value_term = b.sub(); let next_offset = b.u32(); let case_term = b.sub(); cases.push(KismetSwitchCase { case_index_value_term, next_offset, case_term }) }
    let default_term = b.ex();
    is(b, ExSwitchValue { token: T::ExSwitchValue, end_goto_offset, index_term, default_term, cases }.into())
}
fn texts() {
    let mut b = bld(&ver2(), 1);
    b.tok(0x29);
    let k = h::choice(5) as u8;
    b.put(&[k], 1);
    let mut t = FScriptText { text_literal_type: h::must(EBlueprintTextLiteralType::try_from(k), 900), localized_source: None, localized_key: None, localized_namespace: None, invariant_literal_string: None, literal_string: None, string_table_asset: None, string_table_id: None, string_table_key: None };
    match k {
        1 => { t.localized_source = Some(b.sub()); t.localized_key = Some(b.sub()); t.localized_namespace = Some(b.sub()) }
        2 => t.invariant_literal_string = Some(b.sub()),
        3 => t.literal_string = Some(b.sub()),
        4 => { t.string_table_asset = Some(b.obj()); t.string_table_id = Some(b.sub()); t.string_table_key = Some(b.sub()) }
        _ => {}
    }
    is(b, ExTextConst { token: T::ExTextConst, value: Box::new(t) }.into())
}
const KNOWN: [(u8, u8); 12] = [(0x00, 0x02), (0x04, 0x04), (0x06, 0x07), (0x09, 0x09), (0x0B, 0x0B), (0x0F, 0x0F), (0x12, 0x40), (0x42, 0x46), (0x48, 0x48), (0x4A, 0x55), (0x5A, 0x6D), (0xFE, 0xFD)];
/// any other code is refused, also inside lists and where an operand is expected
fn unknown() {
    h::stub_format(true);
    let c = ver2();
    let t = h::u8();
    for (a, z) in KNOWN { h::assume(t < a || t > z) }
    let e = match h::choice(4) { 0 => Enc::new().u8(t).any(8), 1 => Enc::new().u8(0x04).u8(t).any(8), 2 => Enc::new().u8(0x1C).i32(0).u8(0x17).u8(t).any(8), _ => Enc::new().u8(0x69).u16(1).u32(0).u8(0x17).u8(t).any(8) };
    h::check(E::new(&mut c.rd(e.0)).is_err(), 10);
}
/// operands outside their enumeration, negative path lengths and truncated input are errors
fn malformed() {
    h::stub_format(true);
    let c = version(h::choice(3));
    let e = match h::choice(6) {
        0 => { let v = h::u8(); h::assume(v > 4); Enc::new().u8(0x29).u8(v).u8(0x17).u8(0x17).u8(0x17) }
        1 => { let v = h::u8(); h::assume(v > 16); Enc::new().u8(0x6A).u8(v).any(8) }
        2 => { let v = h::u8(); if lwc(&c) { h::assume(v > 0x12 && v != 0xFF) } else { h::assume(v != 0x46 && v != 0x47 && v != 0x49 && v != 0xFF) } Enc::new().u8(0x38).u8(v).u8(0x17) }
        3 => { let c = version(1); let n = h::i32(); h::assume(n < 0 || n > 1); let e = Enc::new().u8(0x33).i32(n).name(1, 0).i32(0); h::check(E::new(&mut c.rd(e.0)).is_err(), 11); return }
        4 => { let i = h::i32(); h::assume(i < 0 || i > 6); Enc::new().u8(0x21).name(i, 0) }
        _ => {
            let mut b = bld(&c, 1);
            match h::choice(4) { 0 => { b.tok(0x0F); b.ptr(); b.ex(); b.ex(); } 1 => { b.tok(0x1C); b.obj(); b.list(0x16, 1); } 2 => { b.tok(0x34); let v = h::u16(); h::assume(v >= 1 && v < 0x80); b.put(&v.to_le_bytes(), 2); b.put(&[0, 0], 2) } _ => { b.tok(0x1F); let s = h::ascii(2); b.put(s.as_bytes(), 0); b.put(&[0], 0) } }
            let n = h::choice(b.e.len() as u64) as usize;
            b.e.truncate(n);
            Enc(b.e)
        }
    };
    h::check(E::new(&mut c.rd(e.0)).is_err(), 12);
}
h::cases! {
    case_bare => bare_ops, case_leaf => leaf_ops, case_floats => floats, case_strings => strings,
    case_unary_a => || unary(h::choice(7)), case_unary_b => || unary(7 + h::choice(6)), case_unary_c => || unary(13 + h::choice(3)),
    case_binary_a => || binary(h::choice(4)), case_binary_b => || binary(4 + h::choice(4)), case_binary_c => || binary(8 + h::choice(2)), case_binary_d => || binary(10), case_binary_e => || binary(11), case_binary_f => || binary(12),
    case_call_a => || lists(h::choice(3)), case_call_b => || lists(3 + h::choice(3)), case_list_a => || lists(6 + h::choice(2)), case_list_b => || lists(8 + h::choice(2)), case_list_c => || lists(10 + h::choice(3)),
    case_switch => switch, case_text => texts, case_unknown => unknown, case_malformed => malformed,
}
