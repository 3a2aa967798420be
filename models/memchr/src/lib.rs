//! Model of `memchr` for the symbolic build: the documented results, computed by plain
//! loops instead of SIMD.

macro_rules! scan {
    ($f:ident, $r:ident, $fi:ident, $t:ident, $($n:ident),+) => {
        #[inline]
        pub fn $f($($n: u8,)+ haystack: &[u8]) -> Option<usize> {
            let mut i = 0;
            while i < haystack.len() {
                let b = haystack[i];
                if $(b == $n)||+ {
                    return Some(i);
                }
                i += 1;
            }
            None
        }
        #[inline]
        pub fn $r($($n: u8,)+ haystack: &[u8]) -> Option<usize> {
            let mut i = haystack.len();
            while i > 0 {
                i -= 1;
                let b = haystack[i];
                if $(b == $n)||+ {
                    return Some(i);
                }
            }
            None
        }
        #[inline]
        pub fn $fi<'h>($($n: u8,)+ haystack: &'h [u8]) -> $t<'h> {
            $t { $($n,)+ haystack, at: 0, end: haystack.len() }
        }
        #[derive(Clone, Debug)]
        pub struct $t<'h> {
            $($n: u8,)+
            haystack: &'h [u8],
            at: usize,
            end: usize,
        }
        impl Iterator for $t<'_> {
            type Item = usize;
            #[inline]
            fn next(&mut self) -> Option<usize> {
                let n = $f($(self.$n,)+ &self.haystack[self.at..self.end])?;
                let r = self.at + n;
                self.at = r + 1;
                Some(r)
            }
        }
        impl DoubleEndedIterator for $t<'_> {
            #[inline]
            fn next_back(&mut self) -> Option<usize> {
                let n = $r($(self.$n,)+ &self.haystack[self.at..self.end])?;
                let r = self.at + n;
                self.end = r;
                Some(r)
            }
        }
    };
}

scan!(memchr, memrchr, memchr_iter, Memchr, n1);
scan!(memchr2, memrchr2, memchr2_iter, Memchr2, n1, n2);
scan!(memchr3, memrchr3, memchr3_iter, Memchr3, n1, n2, n3);

pub fn memrchr_iter(n: u8, h: &[u8]) -> std::iter::Rev<Memchr<'_>> {
    memchr_iter(n, h).rev()
}
pub fn memrchr2_iter(a: u8, b: u8, h: &[u8]) -> std::iter::Rev<Memchr2<'_>> {
    memchr2_iter(a, b, h).rev()
}
pub fn memrchr3_iter(a: u8, b: u8, c: u8, h: &[u8]) -> std::iter::Rev<Memchr3<'_>> {
    memchr3_iter(a, b, c, h).rev()
}

pub mod memmem {
    use std::borrow::Cow;

    #[inline]
    pub fn find(haystack: &[u8], needle: &[u8]) -> Option<usize> {
        let n = needle.len();
        let mut i = 0;
        while i + n <= haystack.len() {
            let mut k = 0;
            while k < n && haystack[i + k] == needle[k] {
                k += 1;
            }
            if k == n {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    #[inline]
    pub fn rfind(haystack: &[u8], needle: &[u8]) -> Option<usize> {
        let n = needle.len();
        if n > haystack.len() {
            return None;
        }
        let mut i = haystack.len() - n + 1;
        while i > 0 {
            i -= 1;
            let mut k = 0;
            while k < n && haystack[i + k] == needle[k] {
                k += 1;
            }
            if k == n {
                return Some(i);
            }
        }
        None
    }
    pub fn find_iter<'h, 'n, N: 'n + ?Sized + AsRef<[u8]>>(haystack: &'h [u8], needle: &'n N) -> FindIter<'h, 'n> {
        FindIter { haystack, needle: Cow::Borrowed(needle.as_ref()), pos: 0 }
    }
    pub fn rfind_iter<'h, 'n, N: 'n + ?Sized + AsRef<[u8]>>(haystack: &'h [u8], needle: &'n N) -> FindRevIter<'h, 'n> {
        FindRevIter { haystack, needle: Cow::Borrowed(needle.as_ref()), pos: Some(haystack.len()) }
    }
    #[derive(Debug, Clone)]
    pub struct FindIter<'h, 'n> {
        haystack: &'h [u8],
        needle: Cow<'n, [u8]>,
        pos: usize,
    }
    impl Iterator for FindIter<'_, '_> {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            let n = find(self.haystack.get(self.pos..)?, &self.needle)?;
            let r = self.pos + n;
            self.pos = r + std::cmp::max(1, self.needle.len());
            Some(r)
        }
    }
    #[derive(Debug, Clone)]
    pub struct FindRevIter<'h, 'n> {
        haystack: &'h [u8],
        needle: Cow<'n, [u8]>,
        pos: Option<usize>,
    }
    impl Iterator for FindRevIter<'_, '_> {
        type Item = usize;
        fn next(&mut self) -> Option<usize> {
            let pos = self.pos?;
            let r = rfind(&self.haystack[..pos], &self.needle)?;
            self.pos = if r == pos { pos.checked_sub(1) } else { Some(r) };
            Some(r)
        }
    }
    #[derive(Debug, Clone)]
    pub struct Finder<'n>(Cow<'n, [u8]>);
    impl<'n> Finder<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> Self {
            Finder(Cow::Borrowed(n.as_ref()))
        }
        pub fn find(&self, h: &[u8]) -> Option<usize> {
            find(h, &self.0)
        }
        pub fn find_iter<'a, 'h>(&'a self, h: &'h [u8]) -> FindIter<'h, 'a> {
            FindIter { haystack: h, needle: Cow::Borrowed(&self.0), pos: 0 }
        }
        pub fn into_owned(self) -> Finder<'static> {
            Finder(Cow::Owned(self.0.into_owned()))
        }
        pub fn as_ref(&self) -> Finder<'_> {
            Finder(Cow::Borrowed(&self.0))
        }
        pub fn needle(&self) -> &[u8] {
            &self.0
        }
    }
    #[derive(Debug, Clone)]
    pub struct FinderRev<'n>(Cow<'n, [u8]>);
    impl<'n> FinderRev<'n> {
        pub fn new<B: ?Sized + AsRef<[u8]>>(n: &'n B) -> Self {
            FinderRev(Cow::Borrowed(n.as_ref()))
        }
        pub fn rfind<B: AsRef<[u8]>>(&self, h: B) -> Option<usize> {
            rfind(h.as_ref(), &self.0)
        }
        pub fn rfind_iter<'a, 'h>(&'a self, h: &'h [u8]) -> FindRevIter<'h, 'a> {
            FindRevIter { haystack: h, needle: Cow::Borrowed(&self.0), pos: Some(h.len()) }
        }
        pub fn into_owned(self) -> FinderRev<'static> {
            FinderRev(Cow::Owned(self.0.into_owned()))
        }
        pub fn as_ref(&self) -> FinderRev<'_> {
            FinderRev(Cow::Borrowed(&self.0))
        }
        pub fn needle(&self) -> &[u8] {
            &self.0
        }
    }
}
