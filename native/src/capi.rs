//! The C interface through the built shared library, with every buffer ending at an unmapped page.
use crate::ck;
use crate::color::*;
use crate::geo;
use crate::util::*;
use image::{Rgb, RgbImage};
use image_palette_recoloring::{DecomposedImage, ImageWeights};
use libc::c_void;
use std::ffi::CString;

struct Guard { base: *mut u8, len: usize, pub p: *mut u8, n: usize }
impl Guard {
    /// `n` bytes directly before (after=false: directly after) an inaccessible page.
    fn new(n: usize, at_end: bool) -> Guard {
        unsafe {
            let pg = 4096; let body = (n + pg - 1) / pg * pg + pg;
            let len = body + 2 * pg;
            let base = libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            libc::mprotect(base.add(pg) as *mut c_void, body, libc::PROT_READ | libc::PROT_WRITE);
            let p = if at_end { base.add(pg + body - n) } else { base.add(pg) };
            std::ptr::write_bytes(base.add(pg), 0xA5, body);
            Guard { base, len, p, n }
        }
    }
    fn of(b: &[u8], at_end: bool) -> Guard { let g = Guard::new(b.len(), at_end); unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), g.p, b.len()) } g }
    fn slice(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.n) } }
    /// bytes of the accessible area outside the buffer are untouched
    fn clean(&self) -> bool { unsafe {
        let b = std::slice::from_raw_parts(self.base.add(4096), self.len - 8192);
        let o = self.p as usize - self.base as usize - 4096;
        b[..o].iter().chain(&b[o + self.n..]).all(|x| *x == 0xA5)
    } }
}
impl Drop for Guard { fn drop(&mut self) { unsafe { libc::munmap(self.base as *mut c_void, self.len); } } }

type FnW = unsafe extern "C" fn(u32, u32, *const u8) -> *const c_void;
type FnF = unsafe extern "C" fn(*const c_void);
type FnP = unsafe extern "C" fn(u32, u32, *const u8, u8, u8, f64, *mut u8) -> *mut u8;
type FnFP = unsafe extern "C" fn(*mut u8, u8);
type FnD = unsafe extern "C" fn(*const c_void, u8, *const u8) -> *const c_void;
type FnU = unsafe extern "C" fn(*const c_void) -> u32;
type FnN = unsafe extern "C" fn(*const c_void) -> u8;
type FnR = unsafe extern "C" fn(*const c_void, *const u8, *mut u8) -> u8;
type FnG = unsafe extern "C" fn(*const c_void, u8, *mut u8) -> u8;

pub fn c17(c: &mut Ctx) {
    let so = std::env::var("VP_SO").expect("VP_SO");
    let h = unsafe { libc::dlopen(CString::new(so).unwrap().as_ptr(), libc::RTLD_NOW) };
    if h.is_null() { panic!("cannot load the C library") }
    let sym = |n: &str| unsafe { let p = libc::dlsym(h, CString::new(n).unwrap().as_ptr()); if p.is_null() { println!("{{\"violation\": \"the library does not export {}\", \"generator\": \"symbols\", \"index\": 0, \"seed\": 0, \"input\": \"\"}}", n); std::process::exit(3) } p };
    let cw: FnW = unsafe { std::mem::transmute(sym("create_image_weights")) };
    let fw: FnF = unsafe { std::mem::transmute(sym("free_image_weights")) };
    let cp: FnP = unsafe { std::mem::transmute(sym("compute_palette")) };
    let fp: FnFP = unsafe { std::mem::transmute(sym("free_computed_palette")) };
    let cd: FnD = unsafe { std::mem::transmute(sym("create_decomposed_image")) };
    let fd: FnF = unsafe { std::mem::transmute(sym("free_decomposed_image")) };
    let gw: FnU = unsafe { std::mem::transmute(sym("get_decomposed_image_width")) };
    let gh: FnU = unsafe { std::mem::transmute(sym("get_decomposed_image_height")) };
    let gn: FnN = unsafe { std::mem::transmute(sym("get_decomposed_image_num_channels")) };
    let ri: FnR = unsafe { std::mem::transmute(sym("reconstruct_image")) };
    let gc: FnG = unsafe { std::mem::transmute(sym("grayscale_image_channel")) };
    let used = || unsafe { libc::mallinfo2().uordblks + libc::mallinfo2().hblkhd } as i64;
    let mut base = -1i64; let mut calls = 0i64;
    c.run("session", 40, |c| unsafe {
        let img = if c.rng.chance(0.02) { large(&mut c.rng) } else { gen_image(&mut c.rng, 7, 0, 255) };
        let px: Vec<[u8; 3]> = img.pixels().map(|p| p.0).collect();
        c.note("image", &(img.width(), img.height(), &px));
        let end = c.rng.chance(0.7);
        let gi = Guard::of(img.as_raw(), end);
        let wts = cw(img.width(), img.height(), gi.p);
        ck!(c, !wts.is_null(), "create_image_weights returned null");
        // palettes
        let mut n = 0xEEu8;
        let (min, max) = (c.rng.below(9) as u8, [100u8, 5, 12][c.rng.below(3)]);
        let eb = [-1.0, 0.02, 1e9][c.rng.below(3)];
        let p = cp(img.width(), img.height(), gi.p, min, max, eb, &mut n);
        let want = image_palette_recoloring::compute_palette(&img, min as usize, max as usize, eb);
        ck!(c, !p.is_null() && n as usize == want.len(), "compute_palette reports {} colours instead of {}", n, want.len());
        let mut got: Vec<[u8; 3]> = std::slice::from_raw_parts(p, 3 * n as usize).chunks(3).map(|x| [x[0], x[1], x[2]]).collect();
        let mut w: Vec<[u8; 3]> = want.iter().map(|x| x.0).collect(); got.sort(); w.sort();
        ck!(c, got == w, "compute_palette gives {:?} instead of {:?}", got, w);
        fp(p, n);
        let mut pal = gen_palette(&mut c.rng, 8);
        let bad = c.rng.chance(0.3);
        if bad { if c.rng.chance(0.5) { pal.truncate(3) } else { let q = pal[0]; pal.push(q) } }
        c.note("palette", &pal);
        let bytes: Vec<u8> = pal.iter().flat_map(|x| x.0).collect();
        let gp = Guard::of(&bytes, end);
        let d = cd(wts, pal.len() as u8, gp.p);
        ck!(c, d.is_null() == bad, "a {} palette gives a {} handle", if bad { "bad" } else { "good" }, if d.is_null() { "null" } else { "non-null" });
        if !bad {
            ck!(c, gn(d) as usize == pal.len() && gw(d) == img.width() && gh(d) == img.height(), "handle reports {} channels, {}x{}", gn(d), gw(d), gh(d));
            let rd = DecomposedImage::new(&ImageWeights::new(&img), &pal).map_err(|e| e)?;
            let np: Vec<Rgb<u8>> = pal.iter().map(|_| Rgb([c.rng.below(256) as u8, c.rng.below(256) as u8, c.rng.below(256) as u8])).collect();
            let nb: Vec<u8> = np.iter().flat_map(|x| x.0).collect();
            let gnp = Guard::of(&nb, end);
            let total = (img.width() * img.height()) as usize;
            let out = Guard::new(3 * total, end);
            let r = ri(d, gnp.p, out.p);
            ck!(c, r == 1 && out.clean(), "reconstruct_image returned {} or wrote outside its buffer", r);
            ck!(c, out.slice() == &rd.reconstruct(&np).unwrap().as_raw()[..], "reconstruct_image's bytes differ from the library's picture");
            for ch in 0..pal.len() {
                let o = Guard::new(total, end);
                let r = gc(d, ch as u8, o.p);
                ck!(c, r == 1 && o.clean(), "grayscale_image_channel({}) returned {} or wrote outside its buffer", ch, r);
                ck!(c, o.slice() == &rd.get_channel_grayscale(ch).unwrap().as_raw()[..], "grayscale_image_channel({})'s bytes differ from the library's picture", ch);
            }
            for ch in [pal.len() as u8, 255] {
                let o = Guard::new(total, end);
                let r = gc(d, ch, o.p);
                ck!(c, r == 0 && o.slice().iter().all(|x| *x == 0xA5) && o.clean(), "grayscale_image_channel({}) of {} returned {} or wrote", ch, pal.len(), r);
            }
            fd(d);
        }
        fw(wts);
        Ok(())
    });
    c.run("leak", 2, |c| unsafe {
        let img = gen_image(&mut c.rng, 5, 0, 255);
        let pal = gen_palette(&mut c.rng, 8);
        let bytes: Vec<u8> = pal.iter().flat_map(|x| x.0).collect();
        let go = |k: usize| for _ in 0..k {
            let w = cw(img.width(), img.height(), img.as_raw().as_ptr());
            let d = cd(w, pal.len() as u8, bytes.as_ptr());
            let mut n = 0u8; let p = cp(img.width(), img.height(), img.as_raw().as_ptr(), 4, 100, -1.0, &mut n);
            fp(p, n); fd(d); fw(w);
        };
        go(3);
        // a real leak grows in every block of sessions; allocator caches do not
        let grown = (0..6).map(|_| { let a = used(); go(12); used() - a }).min().unwrap();
        ck!(c, grown < 12 * 16, "every 12 create/free sessions leave {} more heap bytes allocated", grown);
        Ok(())
    });
    let _ = (base, calls);
}
