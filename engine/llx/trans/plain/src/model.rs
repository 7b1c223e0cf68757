mod plain_real_NAME {
    use crate::ff::{Field as _, PrimeField as _, PrimeFieldRepr as _};
    #[derive(crate::ff::real::PrimeField)]
    #[PrimeFieldModulus = MOD_STR]
    #[PrimeFieldGenerator = GEN_STR]
    pub struct NAME(pub REPR);
}
pub use plain_real_NAME::REPR;
const _: () = {
    type Real = plain_real_NAME::NAME;
    type W = [u64; 4];
    fn p() -> W {
        <Real as crate::ff::PrimeField>::char().0
    }
    /// a - b and whether it borrowed
    fn sub(a: &W, b: &W) -> (W, u64) {
        let (mut r, mut k) = ([0u64; 4], 0u64);
        let mut i = 0;
        while i < 4 {
            let t = (a[i] as u128).wrapping_sub(b[i] as u128).wrapping_sub(k as u128);
            r[i] = t as u64;
            k = (t >> 127) as u64;
            i += 1;
        }
        (r, k)
    }
    /// a if c is 0, b if it is 1, without a branch
    fn sel(c: u64, a: &W, b: &W) -> W {
        let m = 0u64.wrapping_sub(c);
        [(a[0] & !m) | (b[0] & m), (a[1] & !m) | (b[1] & m), (a[2] & !m) | (b[2] & m), (a[3] & !m) | (b[3] & m)]
    }
    fn zero(a: &W) -> u64 {
        ((a[0] | a[1] | a[2] | a[3]) == 0) as u64
    }
    /// p - a, 0 for 0, of any words
    fn minus(a: &W) -> W {
        let mut a = *a;
        let m = p();
        let mut i = 0;
        while i < 5 {
            let (d, k) = sub(&a, &m);
            a = sel(k, &d, &a);
            i += 1;
        }
        sel(zero(&a), &sub(&m, &a).0, &[0; 4])
    }
    fn minus_reduced(a: &W) -> W {
        sel(zero(a), &sub(&p(), a).0, &[0; 4])
    }
    fn add(a: &W, b: &W) -> W {
        let (mut r, mut k) = ([0u64; 4], 0u64);
        let mut i = 0;
        while i < 4 {
            let t = a[i] as u128 + b[i] as u128 + k as u128;
            r[i] = t as u64;
            k = (t >> 64) as u64;
            i += 1;
        }
        let (d, b) = sub(&r, &p());
        // the sum is below 2p: subtract p unless that borrows (and the sum did not carry out)
        sel(b & (1 - k), &d, &r)
    }
    impl ::std::marker::Copy for NAME {}
    impl ::std::clone::Clone for NAME {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl ::std::cmp::PartialEq for NAME {
        fn eq(&self, o: &Self) -> bool {
            ((self.0 .0[0] ^ o.0 .0[0]) | (self.0 .0[1] ^ o.0 .0[1]) | (self.0 .0[2] ^ o.0 .0[2]) | (self.0 .0[3] ^ o.0 .0[3])) == 0
        }
    }
    impl ::std::cmp::Eq for NAME {}
    impl ::std::hash::Hash for NAME {
        fn hash<H: ::std::hash::Hasher>(&self, h: &mut H) {
            for d in self.0 .0 {
                d.hash(h)
            }
        }
    }
    impl ::std::fmt::Debug for NAME {
        fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            write!(f, "{}({:?})", stringify!(NAME), crate::ff::PrimeField::into_repr(self))
        }
    }
    impl ::std::fmt::Display for NAME {
        fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
            write!(f, "{}({})", stringify!(NAME), crate::ff::PrimeField::into_repr(self))
        }
    }
    impl ::std::default::Default for NAME {
        fn default() -> Self {
            NAME(REPR([0; 4]))
        }
    }
    impl ::rand::Rand for NAME {
        fn rand<R: ::rand::Rng>(_: &mut R) -> Self {
            panic!("engine limit: random element")
        }
    }
    impl ::std::convert::From<NAME> for REPR {
        fn from(f: NAME) -> REPR {
            crate::ff::PrimeField::into_repr(&f)
        }
    }
    impl ::std::cmp::Ord for NAME {
        fn cmp(&self, o: &Self) -> ::std::cmp::Ordering {
            crate::ff::PrimeField::into_repr(self).cmp(&crate::ff::PrimeField::into_repr(o))
        }
    }
    impl ::std::cmp::PartialOrd for NAME {
        fn partial_cmp(&self, o: &Self) -> Option<::std::cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl crate::ff::Field for NAME {
        fn zero() -> Self {
            NAME(REPR([0; 4]))
        }
        fn one() -> Self {
            NAME(REPR(minus_reduced(&[1, 0, 0, 0])))
        }
        fn is_zero(&self) -> bool {
            zero(&self.0 .0) == 1
        }
        fn square(&mut self) {
            let t = *self;
            self.mul_assign(&t)
        }
        fn double(&mut self) {
            self.0 = REPR(add(&self.0 .0, &self.0 .0))
        }
        fn negate(&mut self) {
            self.0 = REPR(minus_reduced(&self.0 .0))
        }
        fn add_assign(&mut self, o: &Self) {
            self.0 = REPR(add(&self.0 .0, &o.0 .0))
        }
        fn sub_assign(&mut self, o: &Self) {
            self.0 = REPR(add(&self.0 .0, &minus_reduced(&o.0 .0)))
        }
        fn mul_assign(&mut self, o: &Self) {
            let k = minus_reduced(&o.0 .0);
            if k[1] | k[2] | k[3] != 0 || k[0] >> 16 != 0 {
                panic!("engine limit: product of large outer-field elements")
            }
            let (mut n, mut r, mut b) = (k[0], [0u64; 4], self.0 .0);
            while n != 0 {
                if n & 1 == 1 {
                    r = add(&r, &b);
                }
                b = add(&b, &b);
                n >>= 1;
            }
            self.0 = REPR(r);
        }
        fn inverse(&self) -> Option<Self> {
            panic!("engine limit: inverse of an outer-field element")
        }
        fn frobenius_map(&mut self, _: usize) {}
    }
    impl crate::ff::PrimeField for NAME {
        type Repr = REPR;
        fn from_repr(r: REPR) -> Result<Self, crate::ff::PrimeFieldDecodingError> {
            if sub(&r.0, &p()).1 == 1 {
                Ok(NAME(REPR(minus_reduced(&r.0))))
            } else {
                Err(crate::ff::PrimeFieldDecodingError::NotInField(String::new()))
            }
        }
        fn from_raw_repr(r: REPR) -> Result<Self, crate::ff::PrimeFieldDecodingError> {
            if sub(&r.0, &p()).1 == 1 {
                Ok(NAME(r))
            } else {
                Err(crate::ff::PrimeFieldDecodingError::NotInField(String::new()))
            }
        }
        fn into_repr(&self) -> REPR {
            REPR(minus(&self.0 .0))
        }
        fn into_raw_repr(&self) -> REPR {
            self.0
        }
        fn char() -> REPR {
            <Real as crate::ff::PrimeField>::char()
        }
        const NUM_BITS: u32 = <Real as crate::ff::PrimeField>::NUM_BITS;
        const CAPACITY: u32 = <Real as crate::ff::PrimeField>::CAPACITY;
        const S: u32 = <Real as crate::ff::PrimeField>::S;
        fn multiplicative_generator() -> Self {
            panic!("engine limit: generator")
        }
        fn root_of_unity() -> Self {
            panic!("engine limit: root of unity")
        }
    }
};
