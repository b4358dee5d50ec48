//! The trusted externs of the Dafny code (the `{:extern}` declarations, implemented in C++ in the
//! repository): what a method of this table does is what its contract in the `.s.dfy` file says.
//! A native that is called outside its precondition is reported as a crash of the implementation.
use crate::dexec::{own_seq, Dx, R};
use crate::value::*;
use std::rc::Rc;

fn int(v: &V) -> R<i128> {
    match v {
        V::Int(i) => Ok(*i),
        _ => Err(format!("integer expected, found {}", crate::dexec::kind(v))),
    }
}
fn sq(v: &V) -> R<&Rc<Vec<V>>> {
    match v {
        V::Seq(s) => Ok(s),
        _ => Err(format!("sequence expected, found {}", crate::dexec::kind(v))),
    }
}
fn take_seq(v: V) -> R<Rc<Vec<V>>> {
    match v {
        V::Seq(s) => Ok(s),
        _ => Err(format!("sequence expected, found {}", crate::dexec::kind(&v))),
    }
}
fn unit() -> V {
    V::tup(vec![])
}
fn range(i: i128, n: i128, len: usize, what: &str) -> R<usize> {
    if i < 0 || n < 0 || i + n > len as i128 {
        return Err(format!("{}: [{}, {}) outside a buffer of length {}", what, i, i + n, len));
    }
    Ok(i as usize)
}
fn arr(dx: &mut Dx, v: &V) -> R<usize> {
    match v {
        V::Ref(r) if *r != 0 => {
            if dx.heap[*r as usize].tid != usize::MAX {
                return Err("array expected".into());
            }
            Ok(*r as usize)
        }
        _ => Err("null array".into()),
    }
}
fn le(s: &[V]) -> R<V> {
    let mut x: i128 = 0;
    for (k, b) in s.iter().enumerate() {
        x |= int(b)? << (8 * k);
    }
    Ok(V::Int(x))
}
pub fn crc32c_update(mut crc: u64, bytes: &[u8]) -> u64 {
    for b in bytes {
        crc ^= *b as u64;
        for _ in 0..8 {
            crc = if crc & 1 == 1 { (crc >> 1) ^ 0x82F6_3B78 } else { crc >> 1 };
        }
    }
    crc
}
pub fn bytes(s: &[V]) -> R<Vec<u8>> {
    s.iter().map(|b| int(b).map(|x| x as u8)).collect()
}
pub fn crc32c_padded(s: &[V]) -> R<V> {
    let c = crc32c_table(&bytes(s)?) as u32;
    let mut o: Vec<V> = c.to_le_bytes().iter().map(|b| V::Int(*b as i128)).collect();
    o.resize(32, V::Int(0));
    Ok(V::seq(o))
}
fn crc32c_table(b: &[u8]) -> u32 {
    thread_local!(static T: Vec<u32> = (0..256u64).map(|i| crc32c_update(0, &[i as u8]) as u32).collect());
    T.with(|t| {
        let mut c = !0u32;
        for x in b {
            c = (c >> 8) ^ t[((c ^ *x as u32) & 255) as usize];
        }
        !c
    })
}

pub fn install(d: &mut Dx) {
    // ---- linear sequences
    let ls = |n: &str| format!("LinearSequence_s.{}", n);
    d.native(&ls("seq_get"), |_, a| {
        let s = sq(&a[0])?;
        let i = range(int(&a[1])?, 1, s.len(), "seq_get")?;
        Ok(vec![s[i].clone()])
    });
    d.native(&ls("seq_set"), |_, mut a| {
        let v = a.pop().unwrap();
        let i = int(&a[1])?;
        let mut s = take_seq(std::mem::replace(&mut a[0], V::Undef))?;
        let i = range(i, 1, s.len(), "seq_set")?;
        own_seq(&mut s)[i] = v;
        Ok(vec![V::Seq(s)])
    });
    d.native(&ls("seq_length"), |_, a| Ok(vec![V::Int(sq(&a[0])?.len() as i128)]));
    d.native(&ls("seq_empty"), |_, _| Ok(vec![V::seq(vec![])]));
    d.native(&ls("seq_alloc"), |_, a| {
        let n = int(&a[0])?;
        if n > 1 << 24 {
            return Err(format!("allocation of {} elements", n));
        }
        Ok(vec![V::seq(vec![a[1].clone(); n as usize])])
    });
    d.native(&ls("seq_free"), |_, _| Ok(vec![unit()]));
    d.native(&ls("seq_unleash"), |_, a| Ok(a));
    d.native(&ls("seq_length_bound"), |_, _| Ok(vec![]));
    d.native(&ls("shared_seq_length_bound"), |_, _| Ok(vec![]));
    d.native(&ls("lseq_length_bound"), |_, _| Ok(vec![]));
    d.native(&ls("lseq_length_raw"), |_, a| Ok(vec![V::Int(sq(&a[0])?.len() as i128)]));
    d.native(&ls("lseq_alloc_raw"), |_, a| {
        let n = int(&a[0])?;
        if n > 1 << 24 {
            return Err(format!("allocation of {} elements", n));
        }
        Ok(vec![V::seq(vec![V::Undef; n as usize])])
    });
    d.native(&ls("lseq_free_raw"), |_, a| {
        if sq(&a[0])?.iter().any(|x| !matches!(x, V::Undef)) {
            return Err("lseq_free: an element is still in the sequence".into());
        }
        Ok(vec![unit()])
    });
    d.native(&ls("lseq_swap_raw_fun"), |_, mut a| {
        let v = a.pop().unwrap();
        let i = int(&a[1])?;
        let mut s = take_seq(std::mem::replace(&mut a[0], V::Undef))?;
        let i = range(i, 1, s.len(), "lseq_swap")?;
        let old = std::mem::replace(&mut own_seq(&mut s)[i], v);
        Ok(vec![V::tup(vec![V::Seq(s), old])])
    });
    d.native(&ls("lseq_share_raw"), |_, a| {
        let s = sq(&a[0])?;
        let i = range(int(&a[1])?, 1, s.len(), "lseq_peek")?;
        Ok(vec![s[i].clone()])
    });
    for (n, fill) in [("TrustedRuntimeSeqResize", V::Int(0)), ("TrustedRuntimeLSeqResize", V::Undef)] {
        d.native(&ls(n), move |_, mut a| {
            let n = int(&a[1])?;
            if n > 1 << 24 {
                return Err(format!("allocation of {} elements", n));
            }
            let mut s = take_seq(std::mem::replace(&mut a[0], V::Undef))?;
            own_seq(&mut s).resize(n as usize, fill.clone());
            Ok(vec![V::Seq(s)])
        });
    }
    // ---- maybe
    let lm = |n: &str| format!("LinearMaybe.{}", n);
    for n in ["peek", "unwrap"] {
        d.native(&lm(n), |_, a| {
            if matches!(a[0], V::Undef) {
                return Err("take from an empty slot".into());
            }
            Ok(a)
        });
    }
    d.native(&lm("give"), |_, a| Ok(a));
    d.native(&lm("empty"), |_, _| Ok(vec![V::Undef]));
    d.native(&lm("discard"), |_, a| {
        if !matches!(a[0], V::Undef) {
            return Err("discard of a full slot".into());
        }
        Ok(vec![unit()])
    });
    // ---- arrays
    let na = |n: &str| format!("NativeArrays.{}", n);
    d.native(&na("ByteSeqCmpByteSeq"), |_, a| {
        let (x, y) = (bytes(sq(&a[0])?)?, bytes(sq(&a[1])?)?);
        Ok(vec![V::Int(x.cmp(&y) as i32 as i128)])
    });
    d.native(&na("newArrayFill"), |dx, a| {
        let n = int(&a[0])?;
        if n > 1 << 24 {
            return Err(format!("allocation of {} elements", n));
        }
        Ok(vec![dx.alloc(usize::MAX, vec![a[1].clone(); n as usize])])
    });
    d.native(&na("newArrayClone"), |dx, a| {
        let r = arr(dx, &a[0])?;
        let f = dx.heap[r].f.clone();
        Ok(vec![dx.alloc(usize::MAX, f)])
    });
    d.native(&na("CopySeqIntoArray"), |dx, a| {
        let src = sq(&a[0])?.clone();
        let (si, di, n) = (int(&a[1])?, int(&a[3])?, int(&a[4])?);
        let r = arr(dx, &a[2])?;
        let si = range(si, n, src.len(), "copy source")?;
        let di = range(di, n, dx.heap[r].f.len(), "copy destination")?;
        let o = dx.obj_mut(r);
        o.f[di..di + n as usize].clone_from_slice(&src[si..si + n as usize]);
        Ok(vec![])
    });
    d.native(&na("CopyArrayIntoDifferentArray"), |dx, a| {
        let s = arr(dx, &a[0])?;
        let r = arr(dx, &a[2])?;
        if s == r {
            return Err("CopyArrayIntoDifferentArray: same array".into());
        }
        let (si, di, n) = (int(&a[1])?, int(&a[3])?, int(&a[4])?);
        let src = dx.heap[s].clone();
        let si = range(si, n, src.f.len(), "copy source")?;
        let di = range(di, n, dx.heap[r].f.len(), "copy destination")?;
        let o = dx.obj_mut(r);
        o.f[di..di + n as usize].clone_from_slice(&src.f[si..si + n as usize]);
        Ok(vec![])
    });
    // ---- packed integers
    let pi = |n: &str| format!("NativePackedInts.{}", n);
    for (w, n) in [(4usize, "Uint32"), (8, "Uint64")] {
        d.native(&pi(&format!("Unpack_LittleEndian_{}", n)), move |_, a| {
            let s = sq(&a[0])?;
            let i = range(int(&a[1])?, w as i128, s.len(), "unpack")?;
            Ok(vec![le(&s[i..i + w])?])
        });
        d.native(&pi(&format!("Unpack_LittleEndian_{}_From_Array", n)), move |dx, a| {
            let r = arr(dx, &a[0])?;
            let s = &dx.heap[r].f;
            let i = range(int(&a[1])?, w as i128, s.len(), "unpack")?;
            Ok(vec![le(&s[i..i + w])?])
        });
        d.native(&pi(&format!("Pack_LittleEndian_{}_into_Array", n)), move |dx, a| {
            let x = int(&a[0])?;
            let r = arr(dx, &a[1])?;
            let i = range(int(&a[2])?, w as i128, dx.heap[r].f.len(), "pack")?;
            let o = dx.obj_mut(r);
            for k in 0..w {
                o.f[i + k] = V::Int((x >> (8 * k)) & 255);
            }
            Ok(vec![])
        });
        d.native(&pi(&format!("Unpack_LittleEndian_{}_Seq", n)), move |_, a| {
            let s = sq(&a[0])?;
            let n = int(&a[2])?;
            let i = range(int(&a[1])?, n * w as i128, s.len(), "unpack")?;
            let v: R<Vec<V>> = (0..n as usize).map(|k| le(&s[i + k * w..i + k * w + w])).collect();
            Ok(vec![V::seq(v?)])
        });
        d.native(&pi(&format!("Pack_LittleEndian_{}_Seq_into_Array", n)), move |dx, a| {
            let s = sq(&a[0])?.clone();
            let r = arr(dx, &a[1])?;
            let i = range(int(&a[2])?, (s.len() * w) as i128, dx.heap[r].f.len(), "pack")?;
            let o = dx.obj_mut(r);
            for (j, x) in s.iter().enumerate() {
                let x = int(x)?;
                for k in 0..w {
                    o.f[i + j * w + k] = V::Int((x >> (8 * k)) & 255);
                }
            }
            Ok(vec![])
        });
    }
    d.native("NativeArithmetic.u64add", |_, a| Ok(vec![V::Int((int(&a[0])? + int(&a[1])?) & 0xffff_ffff_ffff_ffff)]));
    // ---- intrinsics
    let b = |n: &str| format!("Bits_s.{}", n);
    let f2 = |n: &str| format!("F2_X_s.{}", n);
    let m64: i128 = 0xffff_ffff_ffff_ffff;
    d.native(&b("intrinsic_mm_cvtepu32_epi64"), |_, a| {
        let x = int(&a[0])?;
        Ok(vec![V::Int((x & 0xffff_ffff) | (((x >> 32) & 0xffff_ffff) << 64))])
    });
    d.native(&b("intrinsic_mm_loadu_si128"), |_, a| {
        let s = sq(&a[0])?;
        let i = range(int(&a[1])?, 2, s.len(), "load of two words")?;
        Ok(vec![V::Int(int(&s[i])? | (int(&s[i + 1])? << 64))])
    });
    d.native(&b("intrinsic_mm_cvtsi64_si128"), |_, a| Ok(a));
    d.native(&b("intrinsic_mm_cvtsi128_si64"), move |_, a| Ok(vec![V::Int(int(&a[0])? & m64)]));
    for (n, w) in [("u8", 1usize), ("u16", 2), ("u32", 4), ("u64", 8)] {
        d.native(&f2(&format!("intrinsic_mm_crc32_{}", n)), move |_, a| {
            let acc = int(&a[0])? as u64 & 0xffff_ffff;
            let x = (int(&a[1])? as u64).to_le_bytes();
            Ok(vec![V::Int(crc32c_update(acc, &x[..w]) as i128)])
        });
    }
    for (n, hi) in [("intrinsic_mm_clmulepi64_si128_0", false), ("intrinsic_mm_clmulepi64_si128_16", true)] {
        d.native(&f2(n), move |_, a| {
            let x = int(&a[0])? as u128 & m64 as u128;
            let y = if hi { (int(&a[1])? as u128) >> 64 } else { int(&a[1])? as u128 & m64 as u128 };
            let mut r = 0u128;
            for k in 0..64 {
                if (y >> k) & 1 == 1 {
                    r ^= x << k;
                }
            }
            Ok(vec![V::Int(r as i128)])
        });
    }
    for n in ["intrinsic_mm_xor_si128", "bitxor32", "bitxor64"] {
        d.native(&f2(n), |_, a| Ok(vec![V::Int(int(&a[0])? ^ int(&a[1])?)]));
    }
    // ---- bookkeeping without an effect on the state
    for n in ["NativeBenchmarking.start", "NativeBenchmarking.end", "MallocAccounting.set_amass_mode", "AllocationReport.start", "AllocationReport.sampleNode", "AllocationReport.stop"] {
        d.native(n, |_, _| Ok(vec![]));
    }
    d.native("MapRemove_s.ComputeMapRemove1", |_, a| match &a[0] {
        V::Map(m) => {
            let mut m = (**m).clone();
            m.remove(&a[1]);
            Ok(vec![V::Map(Rc::new(m))])
        }
        _ => Err("map expected".into()),
    });
}

/// the checksum of a buffer, computed natively (the Dafny implementation has a check of its own)
pub fn fast_crc(d: &mut Dx) {
    d.native("CRC32_C_Impl.compute_crc32c_padded", |_, a| Ok(vec![crc32c_padded(sq(&a[0])?)?]));
    d.native("CRC32_C_Array_Impl.compute_crc32c_padded", |dx, a| {
        let r = arr(dx, &a[0])?;
        let n = int(&a[2])?;
        let i = range(int(&a[1])?, n, dx.heap[r].f.len(), "checksum")?;
        let s = dx.heap[r].clone();
        Ok(vec![crc32c_padded(&s.f[i..i + n as usize])?])
    });
}
