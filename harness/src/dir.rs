//! A directory with given files, for code that reads its configuration from files. Natively it is a
//! scratch directory; in the symbolic build the files stay in memory, with symbolic characters in
//! them where the check put some, and the functions of the C library below serve them.
use std::path::PathBuf;

pub struct Dir {
    pub path: PathBuf,
}

#[cfg(feature = "native")]
impl Dir {
    pub fn new(files: &[(&str, &[u8])]) -> Dir {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let path = std::env::temp_dir().join(format!("vh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&path).unwrap();
        for (n, c) in files {
            std::fs::write(path.join(n), c).unwrap();
        }
        Dir { path }
    }
}
#[cfg(feature = "native")]
impl Drop for Dir {
    fn drop(&mut self) {
        for f in std::fs::read_dir(&self.path).into_iter().flatten().flatten() {
            let _ = std::fs::remove_file(f.path());
        }
        let _ = std::fs::remove_dir(&self.path);
    }
}

#[cfg(not(feature = "native"))]
impl Dir {
    pub fn new(files: &[(&str, &[u8])]) -> Dir {
        memory::put(files);
        Dir { path: PathBuf::from("/mem") }
    }
}

#[cfg(not(feature = "native"))]
mod memory {
    use std::ffi::{c_char, c_int, c_void, CStr};
    static mut FILES: Vec<(String, Vec<u8>)> = Vec::new();
    /// Open files: number of the file, position.
    static mut OPEN: Vec<(usize, usize)> = Vec::new();
    const FD: usize = 100;

    #[repr(C)]
    struct Dirent {
        ino: u64,
        off: i64,
        len: u16,
        kind: u8,
        name: [u8; 256],
    }
    struct Listing {
        next: usize,
        ent: Dirent,
    }
    extern "C" {
        fn __errno_location() -> *mut c_int;
    }

    pub fn put(files: &[(&str, &[u8])]) {
        let mut v = Vec::new();
        for (n, c) in files {
            v.push((n.to_string(), c.to_vec()));
        }
        // what was there is kept for ever, so is this
        unsafe {
            std::mem::forget(std::ptr::replace(&raw mut FILES, v));
        }
    }
    fn name(p: &[u8]) -> Option<usize> {
        let n = p.strip_prefix(b"/mem/")?;
        unsafe { (&*&raw const FILES).iter().position(|f| f.0.as_bytes() == n) }
    }
    fn missing() -> c_int {
        unsafe { *__errno_location() = 2 };
        -1
    }

    #[no_mangle]
    unsafe extern "C" fn open64(p: *const c_char, _flags: c_int, _mode: c_int) -> c_int {
        match name(CStr::from_ptr(p).to_bytes()) {
            Some(k) => {
                let o = &mut *&raw mut OPEN;
                o.push((k, 0));
                (FD + o.len() - 1) as c_int
            }
            None => missing(),
        }
    }
    #[no_mangle]
    unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize {
        let (k, at) = (&*&raw const OPEN)[fd as usize - FD];
        let f = &(&*&raw const FILES)[k].1;
        let n = n.min(f.len() - at);
        std::ptr::copy_nonoverlapping(f.as_ptr().add(at), p as *mut u8, n);
        (&mut *&raw mut OPEN)[fd as usize - FD].1 += n;
        n as isize
    }
    #[no_mangle]
    unsafe extern "C" fn close(_fd: c_int) -> c_int {
        0
    }
    #[no_mangle]
    unsafe extern "C" fn lseek64(fd: c_int, _off: i64, _from: c_int) -> i64 {
        (&*&raw const OPEN)[fd as usize - FD].1 as i64
    }
    /// What `std::fs` asks about a file: whether it is one, and its size.
    #[no_mangle]
    unsafe extern "C" fn statx(fd: c_int, p: *const c_char, _flags: c_int, _mask: u32, buf: *mut c_void) -> c_int {
        if p.is_null() || buf.is_null() {
            *__errno_location() = 14;
            return -1;
        }
        let path = CStr::from_ptr(p).to_bytes();
        let (kind, size) = if path.is_empty() {
            if fd < FD as c_int || fd as usize - FD >= (&*&raw const OPEN).len() {
                return missing();
            }
            (0o100644, (&*&raw const FILES)[(&*&raw const OPEN)[fd as usize - FD].0].1.len())
        } else if path == b"/mem" || path == b"/mem/" {
            (0o040755, 0)
        } else {
            match name(path) {
                Some(k) => (0o100644, (&*&raw const FILES)[k].1.len()),
                None => return missing(),
            }
        };
        let b = buf as *mut u8;
        std::ptr::write_bytes(b, 0, 256);
        *(b as *mut u32) = 0x7ff;
        *(b.add(4) as *mut u32) = 4096;
        *(b.add(16) as *mut u32) = 1;
        *(b.add(28) as *mut u16) = kind;
        *(b.add(40) as *mut u64) = size as u64;
        0
    }
    #[no_mangle]
    unsafe extern "C" fn fstat64(_fd: c_int, _buf: *mut c_void) -> c_int {
        missing()
    }
    #[no_mangle]
    unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
        let d = CStr::from_ptr(p).to_bytes();
        if d != b"/mem" && d != b"/mem/" {
            missing();
            return std::ptr::null_mut();
        }
        let l = Listing { next: 0, ent: Dirent { ino: 1, off: 0, len: 280, kind: 8, name: [0; 256] } };
        Box::into_raw(Box::new(l)) as *mut c_void
    }
    #[no_mangle]
    unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
        let l = &mut *(d as *mut Listing);
        let f = &*&raw const FILES;
        if l.next >= f.len() {
            return std::ptr::null_mut();
        }
        let n = f[l.next].0.as_bytes();
        l.ent.name[..n.len()].copy_from_slice(n);
        l.ent.name[n.len()] = 0;
        l.next += 1;
        &mut l.ent as *mut Dirent as *mut c_void
    }
    #[no_mangle]
    unsafe extern "C" fn __xpg_strerror_r(_e: c_int, p: *mut c_char, n: usize) -> c_int {
        let t = b"No such file or directory\0";
        std::ptr::copy_nonoverlapping(t.as_ptr(), p as *mut u8, t.len().min(n));
        0
    }
    #[no_mangle]
    unsafe extern "C" fn dirfd(_d: *mut c_void) -> c_int {
        FD as c_int
    }
    #[no_mangle]
    unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
        drop(Box::from_raw(d as *mut Listing));
        0
    }
}
