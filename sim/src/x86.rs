//! Which memory an instruction touches: just enough decoding to tell accesses to static data.

#[cfg(target_arch = "x86_64")]
mod imp {
    extern "C" {
        static __data_start: u8;
        static _end: u8;
        static __executable_start: u8;
        static etext: u8;
    }

    /// Tells if a task may be switched at the instruction about to run. Not inside of the system's
    /// libraries, which hold locks the simulator needs; but where they copy and compare memory.
    ///
    /// # Safety
    ///
    /// `ctx` must be the context handed to a signal handler.
    pub unsafe fn may_switch(ctx: *mut libc::c_void) -> bool {
        let at = (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize] as u64;
        let (lo, hi) = (&raw const __executable_start as u64, &raw const etext as u64);
        let plain = [
            libc::memcpy as *const () as u64,
            libc::memmove as *const () as u64,
            libc::memset as *const () as u64,
            libc::memcmp as *const () as u64,
        ];
        (at >= lo && at < hi) || plain.iter().any(|f| at >= *f && at < *f + 0x400)
    }

    fn in_statics(a: u64) -> bool {
        let (lo, hi) = (&raw const __data_start as u64, &raw const _end as u64);
        a >= lo && a < hi
    }

    fn one_byte_modrm(op: u8) -> bool {
        matches!(op,
            0x00..=0x3f if op & 7 < 4)
            || matches!(op, 0x63 | 0x69 | 0x6b | 0x80..=0x8c | 0x8e | 0x8f | 0xc0 | 0xc1 | 0xc6 | 0xc7
                | 0xd0..=0xd3 | 0xf6 | 0xf7 | 0xfe | 0xff)
    }

    fn two_byte_modrm(op: u8) -> bool {
        !matches!(op, 0x05 | 0x0b | 0x0d | 0x18..=0x1f | 0x31 | 0x77 | 0x80..=0x8f | 0xa2 | 0xc8..=0xcf)
    }

    /// Tells if the instruction about to run reads or writes writable static data.
    ///
    /// # Safety
    ///
    /// `ctx` must be the context handed to a signal handler.
    pub unsafe fn touches_statics(ctx: *mut libc::c_void) -> bool {
        let g = &(*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs;
        let reg = |n: u8| -> u64 {
            const R: [i32; 16] = [
                libc::REG_RAX,
                libc::REG_RCX,
                libc::REG_RDX,
                libc::REG_RBX,
                libc::REG_RSP,
                libc::REG_RBP,
                libc::REG_RSI,
                libc::REG_RDI,
                libc::REG_R8,
                libc::REG_R9,
                libc::REG_R10,
                libc::REG_R11,
                libc::REG_R12,
                libc::REG_R13,
                libc::REG_R14,
                libc::REG_R15,
            ];
            g[R[n as usize & 15] as usize] as u64
        };
        let code = g[libc::REG_RIP as usize] as *const u8;
        let at = |i: usize| *code.add(i);
        let mut i = 0;
        let mut rex = 0u8;
        loop {
            match at(i) {
                // Thread-local data.
                0x64 | 0x65 => return false,
                0x66 | 0x67 | 0xf0 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 => i += 1,
                b @ 0x40..=0x4f => {
                    rex = b;
                    i += 1;
                    break;
                }
                _ => break,
            }
            if i > 8 {
                return false;
            }
        }
        let op = at(i);
        i += 1;
        match op {
            0xa4 | 0xa5 => return in_statics(reg(6)) || in_statics(reg(7)),
            0xaa | 0xab => return in_statics(reg(7)),
            0x0f => {
                let op = at(i);
                i += 1;
                if op == 0x38 || op == 0x3a {
                    i += 1;
                } else if !two_byte_modrm(op) {
                    return false;
                }
            }
            0xc5 => {
                let v = at(i);
                rex = (!v & 0x80) >> 5;
                i += 2;
            }
            0xc4 => {
                let v = at(i);
                rex = (!v & 0xe0) >> 5;
                i += 3;
            }
            _ if one_byte_modrm(op) => {}
            _ => return false,
        }
        let modrm = at(i);
        i += 1;
        let (md, rm) = (modrm >> 6, modrm & 7);
        if md == 3 {
            return false;
        }
        let disp = |i: usize, n: u8| -> u64 {
            match n {
                1 => at(i) as i8 as i64 as u64,
                2 => (code.add(i) as *const i32).read_unaligned() as i64 as u64,
                _ => 0,
            }
        };
        let base;
        if rm == 4 {
            let sib = at(i);
            i += 1;
            let (b, x, sc) = (sib & 7, (sib >> 3 & 7) | (rex & 2) << 2, sib >> 6);
            let index = if x == 4 { 0 } else { reg(x) << sc };
            if b == 5 && md == 0 {
                return in_statics(disp(i, 2).wrapping_add(index));
            }
            base = reg(b | (rex & 1) << 3).wrapping_add(index);
        } else if rm == 5 && md == 0 {
            // Relative to the next instruction, which is at most a few octets further.
            return in_statics((code as u64 + i as u64 + 4).wrapping_add(disp(i, 2)));
        } else {
            base = reg(rm | (rex & 1) << 3);
        }
        in_statics(base.wrapping_add(disp(i, md)))
    }
}

#[cfg(target_arch = "x86_64")]
pub use imp::{may_switch, touches_statics};
