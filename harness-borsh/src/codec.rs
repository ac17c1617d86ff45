//! The compact encoding of this harness: borsh.
use borsh::{BorshDeserialize, BorshSerialize};

pub trait Store: BorshSerialize + BorshDeserialize {}
impl<T: BorshSerialize + BorshDeserialize> Store for T {}

pub const NAME: &str = "borsh";

pub fn enc<T: Store>(t: &T) -> Vec<u8> {
    borsh::to_vec(t).expect("serializing a value failed")
}
/// From the front of the bytes, as the other compact encoding reads.
pub fn dec<T: Store>(b: &[u8]) -> Result<T, String> {
    let mut r = b;
    T::deserialize(&mut r).map_err(|e| e.to_string())
}
/// A reader that delivers a few bytes at a time, and now and then reports an
/// interruption, as pipes and sockets do.
pub struct Dribble<'a> {
    pub left: &'a [u8],
    pub sizes: &'a [usize],
    pub at: usize,
}
impl<'a> std::io::Read for Dribble<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let size = self.sizes[self.at % self.sizes.len()];
        self.at += 1;
        if size == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        let n = b.len().min(size).min(self.left.len());
        b[..n].copy_from_slice(&self.left[..n]);
        self.left = &self.left[n..];
        Ok(n)
    }
}
/// And a writer that takes a few bytes at a time.
pub struct Sip<'a> {
    pub out: Vec<u8>,
    pub sizes: &'a [usize],
    pub at: usize,
}
impl<'a> std::io::Write for Sip<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let size = self.sizes[self.at % self.sizes.len()];
        self.at += 1;
        if size == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        let n = b.len().min(size);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Written and read through a slow stream; what was written, and what is read.
pub fn slow<T: Store>(t: &T, sizes: &[usize]) -> Result<(Vec<u8>, T), String> {
    let mut w = Sip { out: vec![], sizes, at: 0 };
    borsh::to_writer(&mut w, t).map_err(|e| format!("slow writer: {}", e))?;
    let mut r = Dribble { left: &w.out, sizes, at: 1 };
    let x: T = T::deserialize_reader(&mut r).map_err(|e| format!("slow reader: {}", e))?;
    if !r.left.is_empty() {
        return Err(format!("slow reader: {} bytes left over", r.left.len()));
    }
    Ok((w.out, x))
}
/// Whether a stream that ends before the value does is an error.
pub fn cut_short<T: Store>(b: &[u8], sizes: &[usize]) -> bool {
    let mut r = Dribble { left: b, sizes, at: 1 };
    T::deserialize_reader(&mut r).is_err()
}
/// Whether writing to a writer that fails after n bytes is an error, and so is
/// reading from a reader that does.
pub fn broken<T: Store>(t: &T, n: usize) -> u8 {
    struct Full(usize);
    impl std::io::Write for Full {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.0 == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
            }
            let k = b.len().min(self.0);
            self.0 -= k;
            Ok(k)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    impl std::io::Read for Full {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if self.0 == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"));
            }
            let k = b.len().min(self.0);
            b[..k].fill(0);
            self.0 -= k;
            Ok(k)
        }
    }
    let w = borsh::to_writer(&mut Full(n), t).is_err();
    let r = T::deserialize_reader(&mut Full(n)).is_err();
    (w && r) as u8
}
/// Through a reader, one value after the other, nothing left over; and by the
/// strict entry points.
pub fn stream<T: Store>(t: &T) -> Result<T, String> {
    let mut b = Vec::new();
    t.serialize(&mut b).map_err(|e| format!("stream: {}", e))?;
    let one = b.clone();
    borsh::to_writer(&mut b, t).map_err(|e| format!("stream: {}", e))?;
    let mut r = &b[..];
    T::deserialize_reader(&mut r).map_err(|e| format!("stream: {}", e))?;
    let x = T::deserialize_reader(&mut r).map_err(|e| format!("stream, second copy: {}", e))?;
    if !r.is_empty() {
        return Err(format!("stream: {} bytes left over", r.len()));
    }
    let y = borsh::from_slice::<T>(&one).map_err(|e| format!("from_slice: {}", e))?;
    if borsh::to_vec(&y).map_err(|e| e.to_string())? != one {
        return Err("from_slice gives another value".to_string());
    }
    let z = borsh::from_reader::<_, T>(&mut &one[..]).map_err(|e| format!("from_reader: {}", e))?;
    if borsh::to_vec(&z).map_err(|e| e.to_string())? != one {
        return Err("from_reader gives another value".to_string());
    }
    if borsh::from_slice::<T>(&b).is_ok() {
        return Err("from_slice ignores bytes left over".to_string());
    }
    Ok(x)
}
