//! Formatting machinery of `core`, which has no IR in the crates built here:
//! the executor runs these in place of the functions of the same purpose.
//! (Layouts: `core::fmt::Formatter`, `core::fmt::Arguments`, rustc 1.99.)
#[repr(C)]
pub struct RawFormatter {
    data: usize,
    vtable: *const VTable,
    flags: u32,
    width: u16,
    precision: u16,
}
#[repr(C)]
pub struct VTable {
    drop: usize,
    size: usize,
    align: usize,
    write_str: fn(usize, *const u8, usize) -> bool,
    write_char: fn(usize, u32) -> bool,
}
#[repr(C)]
pub struct RawArg {
    value: usize,
    f: fn(usize, *mut RawFormatter) -> bool,
}

#[no_mangle]
pub unsafe extern "C" fn rt_write_str(f: *const RawFormatter, s: *const u8, n: usize) -> bool {
    ((*(*f).vtable).write_str)((*f).data, s, n)
}
/// Display for str
#[no_mangle]
pub unsafe extern "C" fn rt_str_fmt(s: *const u8, n: usize, f: *const RawFormatter) -> bool {
    ((*(*f).vtable).write_str)((*f).data, s, n)
}
/// any scalar: its text does not matter
#[no_mangle]
pub unsafe extern "C" fn rt_any_fmt(_v: usize, f: *const RawFormatter) -> bool {
    ((*(*f).vtable).write_str)((*f).data, b"0".as_ptr(), 1)
}
#[no_mangle]
pub unsafe extern "C" fn rt_fmt_write(
    data: usize,
    vtable: *const VTable,
    template: *const u8,
    args: *const RawArg,
) -> bool {
    let w = (*vtable).write_str;
    if args as usize & 1 == 1 {
        return w(data, template, args as usize >> 1);
    }
    let mut p = template;
    let mut k = 0usize;
    loop {
        let n = *p;
        p = p.add(1);
        if n == 0 {
            return false;
        } else if n < 0x80 {
            if w(data, p, n as usize) {
                return true;
            }
            p = p.add(n as usize);
        } else if n == 0x80 {
            let l = *p as usize + 256 * *p.add(1) as usize;
            p = p.add(2);
            if w(data, p, l) {
                return true;
            }
            p = p.add(l);
        } else {
            let mut f = RawFormatter {
                data,
                vtable,
                flags: 0x6000_0020,
                width: 0,
                precision: 0,
            };
            if n != 0xC0 {
                if n & 1 != 0 {
                    f.flags = *p as u32
                        | (*p.add(1) as u32) << 8
                        | (*p.add(2) as u32) << 16
                        | (*p.add(3) as u32) << 24;
                    p = p.add(4);
                }
                if n & 2 != 0 {
                    f.width = *p as u16 | (*p.add(1) as u16) << 8;
                    p = p.add(2);
                }
                if n & 4 != 0 {
                    f.precision = *p as u16 | (*p.add(1) as u16) << 8;
                    p = p.add(2);
                }
                if n & 8 != 0 {
                    k = *p as usize | (*p.add(1) as usize) << 8;
                    p = p.add(2);
                }
            }
            let a = &*args.add(k);
            if (a.f)(a.value, &mut f) {
                return true;
            }
            k += 1;
        }
    }
}
/// `format!`: the text as a String
#[no_mangle]
pub unsafe extern "C" fn rt_format(out: *mut String, template: *const u8, args: *const RawArg) {
    let mut s = String::new();
    {
        let d: &mut dyn std::fmt::Write = &mut s;
        let raw: (usize, *const VTable) = std::mem::transmute(d);
        rt_fmt_write(raw.0, raw.1, template, args);
    }
    out.write(s);
}
