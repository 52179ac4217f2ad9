From 502f3db4c7e26b25b6d00568725e0e7eb6ae8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 01/33] fix: wrap Walsh key indices over the n-1 codes instead
 of panicking on the last

---
 src/hadamard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hadamard.rs b/src/hadamard.rs
index 1d98b74..9e94f60 100644
--- a/src/hadamard.rs
+++ b/src/hadamard.rs
@@ -26,7 +26,7 @@ impl HadamardMatrix {
     }
     pub fn key(&self, n: usize) -> &Vec<Bit> {
         // TODO: FIXME: Make it more obvious there are 2^n-1 codes, instad of 2^n.
-        self.matrix.get((n % self.matrix.len()) + 1).unwrap()
+        self.matrix.get(n % (self.matrix.len() - 1) + 1).unwrap()
     }
 }
 
-- 
2.43.0


From b6102b5e0bb76608e433ade118ce3d1c196a4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 02/33] fix: hop table with a single frequency no longer runs
 past its end

---
 src/fh.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/fh.rs b/src/fh.rs
index 7f3a881..6e36e65 100644
--- a/src/fh.rs
+++ b/src/fh.rs
@@ -42,15 +42,10 @@ impl Iterator for HopTable {
     fn next(&mut self) -> Option<f64> {
         if self.idx == 0 {
             self.hopping_table.shuffle(&mut self.rng);
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
-        } else if self.idx == self.hopping_table.len() - 1 {
-            self.idx = 0;
-            Some(self.hopping_table[self.hopping_table.len() - 1])
-        } else {
-            self.idx += 1;
-            Some(self.hopping_table[self.idx - 1])
         }
+        let hop = self.hopping_table[self.idx];
+        self.idx = (self.idx + 1) % self.hopping_table.len();
+        Some(hop)
     }
 }
 
-- 
2.43.0


From 371f8397bbd92b935e61bee7b8f44c627fcf4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 03/33] fix: inflate with zero copies yields nothing instead of
 repeating for ever

---
 src/iter/inflate.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iter/inflate.rs b/src/iter/inflate.rs
index 6218e64..258bf8f 100644
--- a/src/iter/inflate.rs
+++ b/src/iter/inflate.rs
@@ -21,6 +21,9 @@ impl<T: Copy, I: Iterator<Item = T>> Iterator for Inflate<T, I> {
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
+        if self.copies == 0 {
+            return None;
+        }
         if self.curr.is_none() || self.curr_copy == self.copies {
             self.curr = self.source.next();
             self.curr_copy = 1;
-- 
2.43.0


From 84f6035ab6d84f5eb7a4d81c74ed72552aeb9e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 04/33] fix: power divides by the number of samples, not the
 last index

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf911e7..61d2d0c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -254,7 +254,7 @@ pub fn energy<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
 
 pub fn power<I: Iterator<Item = f64>>(signal: I, sample_rate: f64) -> f64 {
     let (count, power) = signal.enumerate().fold((0, 0f64), |acc, (idx, sample)| {
-        (idx, acc.1 + sample.powi(2))
+        (idx + 1, acc.1 + sample.powi(2))
     });
 
     power / (count as f64) / sample_rate
-- 
2.43.0


From 626e6fd208f9fbaa3686dc7531290994e9e5a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 05/33] fix: centred down-chirp sweeps down

---
 src/fh_css.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fh_css.rs b/src/fh_css.rs
index 25f6f26..07f3c05 100644
--- a/src/fh_css.rs
+++ b/src/fh_css.rs
@@ -34,8 +34,8 @@ pub fn linear_downchirp_centered(
     bandwidth: f64,
     sample_rate: usize,
 ) -> impl Iterator<Item = f64> {
-    let f0: f64 = center_freq - bandwidth / 2f64;
-    let f1: f64 = center_freq + bandwidth / 2f64;
+    let f0: f64 = center_freq + bandwidth / 2f64;
+    let f1: f64 = center_freq - bandwidth / 2f64;
     linear_chirp(chirp_rate, sample_rate, f0, f1)
 }
 
-- 
2.43.0


From 6279626796fc94c2038ce98f460341627d42a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 06/33] fix: convolve/nonvolve compute the full linear
 convolution

The taps were applied in reverse order and the tail was misaligned, which
only goes unnoticed with a constant filter shorter than the signal.
---
 src/iter/convolution.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/iter/convolution.rs b/src/iter/convolution.rs
index 493b846..20b6bd9 100644
--- a/src/iter/convolution.rs
+++ b/src/iter/convolution.rs
@@ -13,6 +13,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<T>,
+    tail: usize,
 }
 
 impl<T, I> Convolver<T, I>
@@ -26,13 +27,14 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            tail: 0,
         }
     }
 
     fn _convolve(&self) -> T {
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter())
             .map(|(&buf, &filt)| buf * filt)
             .sum()
     }
@@ -51,6 +53,7 @@ where
                 // Here is where the convolution happens.
 
                 self.buffer.push_front(num);
+                self.tail = self.filter.len().saturating_sub(1);
 
                 if self.buffer.len() > self.filter.len() {
                     // Deal with front, before buffer is filled to capacity.
@@ -60,11 +63,15 @@ where
                 Some(self._convolve())
             }
             None => {
-                // if self.buffer.is_empty() {
-                if self.buffer.len() <= 1 {
+                if self.tail == 0 {
                     None
                 } else {
-                    self.buffer.pop_back();
+                    // The signal is over: shift zeros in until the filter has run out.
+                    self.tail -= 1;
+                    self.buffer.push_front(std::iter::empty::<T>().sum());
+                    if self.buffer.len() > self.filter.len() {
+                        self.buffer.pop_back();
+                    }
                     Some(self._convolve())
                 }
             }
@@ -80,6 +87,7 @@ where
     source: I,
     filter: Vec<T>,
     buffer: VecDeque<[T; N]>,
+    tail: usize,
 }
 
 impl<T, I, const N: usize> Nonvolver<T, I, N>
@@ -93,6 +101,7 @@ where
             source,
             filter,
             buffer: VecDeque::with_capacity(filter_len + 1),
+            tail: 0,
         }
     }
 
@@ -100,7 +109,7 @@ where
         let mut ret = [T::default(); N];
         self.buffer
             .iter()
-            .zip(self.filter.iter().rev())
+            .zip(self.filter.iter())
             .for_each(|(&buf, &filt)| {
                 buf.iter()
                     .enumerate()
@@ -122,6 +131,7 @@ where
             Some(nums) => {
                 // Here is where the convolution happens.
                 self.buffer.push_front(nums);
+                self.tail = self.filter.len().saturating_sub(1);
 
                 if self.buffer.len() > self.filter.len() {
                     // Deal with front, before buffer is filled to capacity.
@@ -130,10 +140,15 @@ where
                 Some(self._nonvolve())
             }
             None => {
-                if self.buffer.len() <= 1 {
+                if self.tail == 0 {
                     None
                 } else {
-                    self.buffer.pop_back();
+                    // The signal is over: shift zeros in until the filter has run out.
+                    self.tail -= 1;
+                    self.buffer.push_front([T::default(); N]);
+                    if self.buffer.len() > self.filter.len() {
+                        self.buffer.pop_back();
+                    }
                     Some(self._nonvolve())
                 }
             }
-- 
2.43.0


From 1e8a34ec1ed1f837e4043eb5335a65c438fc8f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 07/33] fix: OFDM passband receiver integrates exactly one
 symbol per window

---
 src/ofdm.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index bbaabf2..853dfc4 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -127,7 +127,6 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
     assert!(is_int(sample_rate as f64 / symbol_rate as f64));
     let samples_per_symbol = sample_rate / symbol_rate;
 
-    let filter: Vec<f64> = (0..samples_per_symbol).map(|_| 1f64).collect();
     let ofdm_symbols = message
         .enumerate()
         .map(move |(idx, sample)| {
@@ -137,10 +136,8 @@ pub fn rx_ofdm_qpsk_signal<I: Iterator<Item = f64>>(
 
             [ii, qi]
         })
-        .nonvolve(filter)
-        .map(|s_i| Complex::new(s_i[0], s_i[1]))
-        .take_every(samples_per_symbol)
-        .skip(1);
+        .nintegrate_and_dump(samples_per_symbol)
+        .map(|s_i| Complex::new(s_i[0], s_i[1]));
 
     let qpsk_symbols = rx_baseband_ofdm_signal(ofdm_symbols, subcarriers, pilots);
     rx_baseband_qpsk_signal(qpsk_symbols)
-- 
2.43.0


From f2e76f149b63ce9d48712134f0b5f84ad3fb115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 08/33] fix: OFDM with an odd number of subcarriers uses the
 inverse FFT shift in tx

---
 src/lib.rs  | 8 ++++++++
 src/ofdm.rs | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 61d2d0c..bb85e49 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -147,6 +147,14 @@ fn fftshift<T: Clone>(x: &[T]) -> Vec<T> {
     v
 }
 
+fn ifftshift<T: Clone>(x: &[T]) -> Vec<T> {
+    let mut v = Vec::with_capacity(x.len());
+    let pivot = x.len() / 2;
+    v.extend_from_slice(&x[pivot..]);
+    v.extend_from_slice(&x[..pivot]);
+    v
+}
+
 fn fftshift_mut<T: Copy>(x: &mut [T]) {
     let pivot = x.len().div_ceil(2);
     let v: Vec<T> = Vec::from(&x[..pivot]);
diff --git a/src/ofdm.rs b/src/ofdm.rs
index 853dfc4..9cd2687 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -1,6 +1,6 @@
 use crate::iter::Iter;
 use crate::qpsk::{rx_baseband_qpsk_signal, tx_baseband_qpsk_signal};
-use crate::{fftshift, is_int, Bit};
+use crate::{fftshift, ifftshift, is_int, Bit};
 use rustfft::num_traits::Zero;
 use rustfft::{num_complex::Complex, FftPlanner};
 use std::f64::consts::PI;
@@ -41,7 +41,7 @@ pub fn tx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
                 .zip(data_chunk)
                 .for_each(|(&carrier, datum)| ofdm_symbol_data[carrier] = datum);
 
-            let mut ofdm_symbols = fftshift(&ofdm_symbol_data);
+            let mut ofdm_symbols = ifftshift(&ofdm_symbol_data);
             fft.process_with_scratch(&mut ofdm_symbols, &mut fft_scratch); // IFFT
 
             let cp = ofdm_symbols[subcarriers - cp_len..subcarriers]
-- 
2.43.0


From fb85f5c801fed07ff0bb4eebb3cc02fa97ff6aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 09/33] fix: OFDM receiver drops a truncated last symbol
 instead of panicking

---
 src/ofdm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ofdm.rs b/src/ofdm.rs
index 9cd2687..7f50ad5 100644
--- a/src/ofdm.rs
+++ b/src/ofdm.rs
@@ -76,6 +76,7 @@ pub fn rx_baseband_ofdm_signal<I: Iterator<Item = Complex<f64>>>(
 
     message
         .chunks(subcarriers + cp_len) // S/P
+        .filter(move |chunk| chunk.len() == subcarriers + cp_len)
         .flat_map(move |ofdm_symbol_data| {
             // let mut buffer: Vec<Complex<f64>> = fftshift(&ofdm_symbol_data[cp_len..]); // CP Removal
             let mut buffer: Vec<Complex<f64>> = Vec::from(&ofdm_symbol_data[cp_len..]); // CP Removal
-- 
2.43.0


From c4a57c1bef0ba85212afe47b05583cb6bcfbae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 10/33] fix: FH-OFDM-DCSK receiver drops a truncated last block
 instead of panicking

---
 src/fh_ofdm_dcsk.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 160690d..2b0f606 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -76,6 +76,7 @@ pub fn rx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Complex<f64>>>(
 
     signal
         .chunks(NUM_SUBCARRIERS + CP_LEN)
+        .filter(|chunk| chunk.len() == NUM_SUBCARRIERS + CP_LEN)
         .flat_map(move |chunk| {
             let mut buffer: Vec<Complex<f64>> = Vec::from(&chunk[CP_LEN..]); // CP Removal
 
-- 
2.43.0


From cab98078d9dde053f9692e2428428ad12bc225b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 11/33] fix: coded receiver drops a fragment without data bytes
 instead of panicking

---
 src/bch.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bch.rs b/src/bch.rs
index 9ff0102..1f1a230 100644
--- a/src/bch.rs
+++ b/src/bch.rs
@@ -21,6 +21,7 @@ pub fn bch_stream_encode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item
 pub fn bch_stream_decode<I: Iterator<Item = Bit>>(data: I) -> impl Iterator<Item = Bit> {
     bools_to_u8s(data)
         .chunks(FRAME_VALUE)
+        .filter(|chunk| chunk.len() > ECC_VALUE)
         .flat_map(|chunk| {
             let dec = Decoder::new(ECC_VALUE);
             // let decoded: Vec<u8> = dec.correct(&chunk, None);
-- 
2.43.0


From 19bf5a70d215173be40bdc84e0d0e05cf9418ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 12/33] fix: complex AWGN disturbs the imaginary part as well

---
 src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bb85e49..3dcdb19 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -225,13 +225,14 @@ pub fn awgn_complex<I: Iterator<Item = Complex<f64>>>(
     signal: I,
     sigma: f64,
 ) -> impl Iterator<Item = Complex<f64>> {
+    let noise = || {
+        Normal::new(0f64, sigma)
+            .unwrap()
+            .sample_iter(rand::thread_rng())
+    };
     signal
-        .zip(
-            Normal::new(0f64, sigma)
-                .unwrap()
-                .sample_iter(rand::thread_rng()),
-        )
-        .map(|(sample, noise)| sample + noise)
+        .zip(noise().zip(noise()))
+        .map(|(sample, (re, im))| sample + Complex::new(re, im))
 }
 
 pub fn awgn<I: Iterator<Item = f64>>(signal: I, sigma: f64) -> impl Iterator<Item = f64> {
-- 
2.43.0


From a5b1be70f3cccfaa6dcc85c054032badbdf7c9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 13/33] fix: Chebyshev (cubic) map stays within [-1, 1] instead
 of diverging

---
 src/chaos/chebyshev.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chaos/chebyshev.rs b/src/chaos/chebyshev.rs
index 491ed2d..da46339 100644
--- a/src/chaos/chebyshev.rs
+++ b/src/chaos/chebyshev.rs
@@ -4,7 +4,7 @@ pub fn chebyshev(xn: f64) -> f64 {
     let mu = 3f64;
     // 1f64 - 2f64 * xn.powi(2)
     // 2f64 * xn.powi(2) - 1f64
-    mu * xn.powi(3) - (1f64 - mu) * xn
+    mu * xn.powi(3) + (1f64 - mu) * xn
 }
 
 pub struct Chebyshev {
-- 
2.43.0


From 69f02fd27078ceea139d172f5d80d52107bd056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 14/33] fix: FH-OFDM-DCSK receiver undoes the chaotic chips the
 transmitter applies

---
 src/fh_ofdm_dcsk.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fh_ofdm_dcsk.rs b/src/fh_ofdm_dcsk.rs
index 2b0f606..0ee1ed2 100644
--- a/src/fh_ofdm_dcsk.rs
+++ b/src/fh_ofdm_dcsk.rs
@@ -77,7 +77,8 @@ pub fn rx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Complex<f64>>>(
     signal
         .chunks(NUM_SUBCARRIERS + CP_LEN)
         .filter(|chunk| chunk.len() == NUM_SUBCARRIERS + CP_LEN)
-        .flat_map(move |chunk| {
+        .zip(Chebyshev::new(0.5).chunks(NUM_SUBCARRIERS))
+        .flat_map(move |(chunk, chaotic_sequence)| {
             let mut buffer: Vec<Complex<f64>> = Vec::from(&chunk[CP_LEN..]); // CP Removal
 
             fft.process_with_scratch(&mut buffer, &mut fft_scratch); // IFFT
@@ -99,8 +100,10 @@ pub fn rx_baseband_fh_ofdm_dcsk_signal<I: Iterator<Item = Complex<f64>>>(
             let a = dehopped_symbols[0];
             let b = Vec::from(&dehopped_symbols[1..]);
 
-            (0..dehopped_symbols.len() - 1)
-                .map(move |idx| (a.conj() * b[idx]).re.is_sign_positive())
+            (0..dehopped_symbols.len() - 1).map(move |idx| {
+                let chips = chaotic_sequence[0] * chaotic_sequence[idx + 1];
+                ((a.conj() * b[idx]).re * chips).is_sign_positive()
+            })
         })
     // .skip(7)
 }
-- 
2.43.0


From 1875d5b8d8e41478b547a995e774614acd32e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 15/33] fix: kom_py QPSK transmitter uses the requested
 carrier, not half of it

---
 kom_py/psk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/psk.py b/kom_py/psk.py
index 8928f26..ebcf579 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -72,7 +72,7 @@ def tx_qpsk(
     # Make time array
     # time = [i / samp_rate for i in range(len(symbols))]
     return [
-        (c_i * np.exp(1j * np.pi * carrier_freq * (i / samp_rate))).real
+        (c_i * np.exp(2j * np.pi * carrier_freq * (i / samp_rate))).real
         for (i, c_i) in enumerate(symbols)
     ]
 
-- 
2.43.0


From 6cd1bdb3be947265136d331d4570b7317697ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 16/33] fix: kom_py receivers sample each symbol's own
 correlation, not one sample late

---
 kom_py/cdma.py | 2 +-
 kom_py/psk.py  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index 57765aa..de70346 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -46,7 +46,7 @@ def rx_bpsk_cdma(
 
     sig = np.convolve(if_sig, filter)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [th_i > 0 for th_i in sig[samples_per_symbol - 1 :: samples_per_symbol]]
 
 
 if __name__ == "__main__":
diff --git a/kom_py/psk.py b/kom_py/psk.py
index ebcf579..9a8941a 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -56,7 +56,7 @@ def rx_bpsk(
 
     sig = np.convolve(if_sig, filter)
 
-    return [th_i > 0 for th_i in sig[::samples_per_symbol]][1:]
+    return [th_i > 0 for th_i in sig[samples_per_symbol - 1 :: samples_per_symbol]]
 
 
 def tx_qpsk(
@@ -101,7 +101,7 @@ def rx_qpsk(
         filter,
     )
 
-    i_bits = [i > 0 for i in ii[::samples_per_symbol]][1:]
-    q_bits = [i > 0 for i in qi[::samples_per_symbol]][1:]
+    i_bits = [i > 0 for i in ii[samples_per_symbol - 1 :: samples_per_symbol]]
+    q_bits = [i > 0 for i in qi[samples_per_symbol - 1 :: samples_per_symbol]]
 
     return list(np.array(list(zip(i_bits, q_bits))).flatten())
-- 
2.43.0


From 02ca7e8a246b080dd9a46a3f3619b21353cde454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 17/33] fix: floor_power_of_2 is exact (floating-point log is
 not)

---
 kom_py/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kom_py/util.py b/kom_py/util.py
index 461cf9d..0dcb9ac 100644
--- a/kom_py/util.py
+++ b/kom_py/util.py
@@ -1,7 +1,7 @@
 #!/usr/bin/env python3
 from contextlib import contextmanager
 from itertools import zip_longest
-from math import ceil, log
+from math import ceil
 import numpy as np
 import time
 from typing import Any, Iterable, Generator, List, Union, Optional
@@ -23,10 +23,8 @@ def floor_power_of_2(x):
     x = int(x)
     if x == 0:
         return 0
-    elif log(x, 2).is_integer():
-        return x
     else:
-        return 2 ** (int(x - 1).bit_length() - 1)
+        return 2 ** (x.bit_length() - 1)
 
 
 def bit_to_nrz(bit: bool) -> float:
-- 
2.43.0


From df6e3684e24d2dc09d11de78af77f419cfc0a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 18/33] fix: chirpCtr passes the rates to chirpz in the order
 it takes them

---
 kom_py/chirp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/chirp.py b/kom_py/chirp.py
index c6f1a5b..2695c21 100644
--- a/kom_py/chirp.py
+++ b/kom_py/chirp.py
@@ -89,7 +89,7 @@ def chirpCtr(fs_Hz, fc_Hz, rep_Hz, bw_Hz, phase_rad=0):
     """
     f0_Hz = fc_Hz - bw_Hz / 2.0
     f1_Hz = fc_Hz + bw_Hz / 2.0
-    return chirpz(fs_Hz, rep_Hz, f0_Hz, f1_Hz, phase_rad)
+    return chirpz(rep_Hz, fs_Hz, f0_Hz, f1_Hz, phase_rad=phase_rad)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3d93a3e58370817da8ac0f85312e91f0fc29ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 19/33] fix: kom_py CDMA receiver despreads with the key

---
 kom_py/cdma.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index de70346..fad5ea7 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -37,10 +37,13 @@ def rx_bpsk_cdma(
     assert samp_rate % symb_rate == 0
     assert (samp_rate / symb_rate).is_integer()
     assert (samp_rate / (symb_rate * len(KEY))).is_integer()
+    samples_per_chip = int(samples_per_symbol / len(KEY))
     filter = [1 for _ in range(samples_per_symbol)]
 
     if_sig = [
-        s_i * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
+        s_i
+        * KEY[i // samples_per_chip % len(KEY)]
+        * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
         for (i, s_i) in enumerate(signal)
     ]
 
-- 
2.43.0


From 5d5ad656c32319cc4272ee2b67ff1c9e72df1673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 20/33] hook: expose the CSK receiver under cfg(kmc)

---
 src/csk.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/csk.rs b/src/csk.rs
index 8a9033d..f96854e 100644
--- a/src/csk.rs
+++ b/src/csk.rs
@@ -20,6 +20,16 @@ fn rx_baseband_csk<I: Iterator<Item = f64>>(message: I) -> impl Iterator<Item =
         .map(|((sample, chaos_1), chaos_2)| (sample - chaos_1).abs() < (sample - chaos_2).abs())
 }
 
+/// Access to the private receiver for the model checker (`--cfg kmc` only).
+#[cfg(kmc)]
+pub mod kmc_hook {
+    use crate::Bit;
+
+    pub fn rx_baseband_csk<I: Iterator<Item = f64>>(message: I) -> impl Iterator<Item = Bit> {
+        super::rx_baseband_csk(message)
+    }
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 89ec2702d1823d9d972876f7873407d46c653193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:17 +0000
Subject: [PATCH 21/33] fix: ssca_mapped computes its cells exactly (rounding
 misplaced and overwrote values)

---
 src/ssca.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ssca.rs b/src/ssca.rs
index 5096033..4e8b803 100644
--- a/src/ssca.rs
+++ b/src/ssca.rs
@@ -70,10 +70,10 @@ pub fn ssca_mapped(s: Vec<f64>, n: usize, np: usize) -> Array2<Complex<f64>> {
     // Step 5.
     for q_p in 0..n {
         for k_p in 0..np {
-            let f: f64 = k_p as f64 / (2f64 * np as f64) - q_p as f64 / (2f64 * n as f64);
-            let a: f64 = k_p as f64 / np as f64 + q_p as f64 / n as f64;
-            let k: usize = (np as f64 * (f + 0.5)) as usize;
-            let q: usize = (n as f64 * a) as usize;
+            // f = k_p / 2np - q_p / 2n and a = k_p / np + q_p / n; the cell is
+            // [np * (f + 0.5), n * a] rounded down, computed exactly.
+            let k: usize = (k_p * n + np * n - q_p * np) / (2 * n);
+            let q: usize = k_p * n / np + q_p;
             sxf[[k, q]] = sx[[q_p, k_p]];
         }
     }
-- 
2.43.0


From 938e13b6cb2f323e6599b5bf7d151c6404bcad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 22/33] fix: the Python ssca maps its cells exactly too

---
 kom_py/ssca.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/kom_py/ssca.py b/kom_py/ssca.py
index 412bd32..46cd072 100755
--- a/kom_py/ssca.py
+++ b/kom_py/ssca.py
@@ -88,10 +88,9 @@ def ssca(s: List[float], N, Np, map_output=True) -> np.ndarray:
         Sxf = np.zeros((Np + 1, 2 * N + 1), dtype=complex)
         for q_p in range(N):
             for k_p in range(Np):
-                f = k_p / (2 * Np) - q_p / (2 * N)
-                a = k_p / Np + q_p / N
-                k = int(Np * (f + 0.5))
-                q = int(N * a)
+                # k = Np * (f + 0.5) and q = N * a, rounded down exactly.
+                k = (k_p * N + Np * N - q_p * Np) // (2 * N)
+                q = k_p * N // Np + q_p
                 Sxf[k][q] = sx[q_p][k_p]
         return Sxf
     else:
-- 
2.43.0


From 7f08cad04c4c9256a14e74ffe108658f8a8289d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 23/33] fix: kom_py max_cut takes the largest magnitude (np.max
 compares complex numbers by real part)

---
 kom_py/ssca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/ssca.py b/kom_py/ssca.py
index 46cd072..4fb3214 100755
--- a/kom_py/ssca.py
+++ b/kom_py/ssca.py
@@ -100,7 +100,7 @@ def ssca(s: List[float], N, Np, map_output=True) -> np.ndarray:
 def max_cut(sx: np.ndarray) -> np.ndarray:
     # l_max(t, a) = 10 log_10( max_f( | S(a, f) |^2 ) )
     # TODO: verify if axis zero or axis 1.
-    λ = np.abs(np.max(sx, axis=1)) ** 2
+    λ = np.max(np.abs(sx), axis=1) ** 2
     return 10 * np.log10(λ)
     # return λ
 
-- 
2.43.0


From b2dc29d9e3c88beb8d563d2b74644423e3c1bc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 24/33] fix: kom_py receivers return no bits for an empty
 reception instead of raising

---
 kom_py/cdma.py |  7 ++-----
 kom_py/psk.py  | 25 ++++++++++++++-----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/kom_py/cdma.py b/kom_py/cdma.py
index fad5ea7..ba330dd 100644
--- a/kom_py/cdma.py
+++ b/kom_py/cdma.py
@@ -1,5 +1,5 @@
 #!/usr/bin/env python3
-from psk import tx_bpsk
+from psk import symbol_sums, tx_bpsk
 
 import numpy as np
 from typing import List
@@ -38,7 +38,6 @@ def rx_bpsk_cdma(
     assert (samp_rate / symb_rate).is_integer()
     assert (samp_rate / (symb_rate * len(KEY))).is_integer()
     samples_per_chip = int(samples_per_symbol / len(KEY))
-    filter = [1 for _ in range(samples_per_symbol)]
 
     if_sig = [
         s_i
@@ -47,9 +46,7 @@ def rx_bpsk_cdma(
         for (i, s_i) in enumerate(signal)
     ]
 
-    sig = np.convolve(if_sig, filter)
-
-    return [th_i > 0 for th_i in sig[samples_per_symbol - 1 :: samples_per_symbol]]
+    return [th_i > 0 for th_i in symbol_sums(if_sig, samples_per_symbol)]
 
 
 if __name__ == "__main__":
diff --git a/kom_py/psk.py b/kom_py/psk.py
index 9a8941a..ad4e3d7 100644
--- a/kom_py/psk.py
+++ b/kom_py/psk.py
@@ -23,6 +23,13 @@ def rx_baseband_qpsk(signal: List[complex]) -> List[bool]:
     return list(np.array([[s_i.real >= 0, s_i.imag >= 0] for s_i in signal]).flatten())
 
 
+def symbol_sums(samples: List[float], samples_per_symbol: int) -> np.ndarray:
+    """Sum the samples of each complete symbol."""
+    num_symbols = len(samples) // samples_per_symbol
+    samples = np.array(samples, dtype=float)[: num_symbols * samples_per_symbol]
+    return samples.reshape(-1, samples_per_symbol).sum(axis=1)
+
+
 def tx_bpsk(
     data: List[bool], samp_rate: int, symb_rate: int, carrier_freq: float
 ) -> List[float]:
@@ -47,16 +54,13 @@ def rx_bpsk(
     samples_per_symbol = int(samp_rate / symb_rate)
     assert samp_rate / 2 >= carrier_freq
     assert samp_rate % symb_rate == 0
-    filter = [1 for _ in range(samples_per_symbol)]
 
     if_sig = [
         s_i * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
         for (i, s_i) in enumerate(signal)
     ]
 
-    sig = np.convolve(if_sig, filter)
-
-    return [th_i > 0 for th_i in sig[samples_per_symbol - 1 :: samples_per_symbol]]
+    return [th_i > 0 for th_i in symbol_sums(if_sig, samples_per_symbol)]
 
 
 def tx_qpsk(
@@ -83,25 +87,24 @@ def rx_qpsk(
     samples_per_symbol = int(samp_rate / symb_rate)
     assert samp_rate / 2 >= carrier_freq
     assert samp_rate % symb_rate == 0
-    filter = [1 for _ in range(samples_per_symbol)]
 
-    ii = np.convolve(
+    ii = symbol_sums(
         [
             s_i * np.cos(2 * np.pi * carrier_freq * (i / samp_rate))
             for (i, s_i) in enumerate(signal)
         ],
-        filter,
+        samples_per_symbol,
     )
 
-    qi = np.convolve(
+    qi = symbol_sums(
         [
             s_i * -np.sin(2 * np.pi * carrier_freq * (i / samp_rate))
             for (i, s_i) in enumerate(signal)
         ],
-        filter,
+        samples_per_symbol,
     )
 
-    i_bits = [i > 0 for i in ii[samples_per_symbol - 1 :: samples_per_symbol]]
-    q_bits = [i > 0 for i in qi[samples_per_symbol - 1 :: samples_per_symbol]]
+    i_bits = [i > 0 for i in ii]
+    q_bits = [i > 0 for i in qi]
 
     return list(np.array(list(zip(i_bits, q_bits))).flatten())
-- 
2.43.0


From 5686af057a92a9f611db6b13f1c96793245e44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 25/33] fix: secs_to_str counts the quarter day of a year once

---
 kom_py/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kom_py/util.py b/kom_py/util.py
index 0dcb9ac..574eb04 100644
--- a/kom_py/util.py
+++ b/kom_py/util.py
@@ -64,7 +64,7 @@ def secs_to_str(seconds: float) -> str:
     if days:
         out += f"{int(seconds % s_y // s_d)}d:"
     if hours:
-        out += f"{int(seconds % s_d // s_h)}h:"
+        out += f"{int(seconds % s_y % s_d // s_h)}h:"
     if minutes:
         out += f"{int(seconds % s_h // s_m)}m:"
     if seconds:
-- 
2.43.0


From f5b9f9a830de57e189c357ccb0b14c14416abac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:32 +0000
Subject: [PATCH 26/33] fix: take_every ends as soon as its source has ended

---
 src/iter/take_every.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter/take_every.rs b/src/iter/take_every.rs
index d0b6b1a..689753f 100644
--- a/src/iter/take_every.rs
+++ b/src/iter/take_every.rs
@@ -23,7 +23,7 @@ impl<T, I: Iterator<Item = T>> Iterator for Take<T, I> {
                 self.curr += 1;
                 return self.source.next();
             } else {
-                self.source.next();
+                self.source.next()?;
                 self.curr += 1;
             }
         }
-- 
2.43.0


From 84e5f1573125e6b387cf19c72cfe3fe2112a30f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 27/33] fix: butterpass takes streams whose last block is short
 instead of panicking

---
 src/bpf.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bpf.rs b/src/bpf.rs
index 398abbb..56678a1 100644
--- a/src/bpf.rs
+++ b/src/bpf.rs
@@ -63,7 +63,15 @@ pub fn butterpass<I: Iterator<Item = f64>>(
     };
     stream
         .chunks(FFT_LEN * 10)
-        .flat_map(move |chunk| sosfiltfilt_dyn(chunk.into_iter(), &bandpass_filter.sos))
+        .flat_map(move |mut chunk| {
+            // `sosfiltfilt_dyn` refuses input shorter than the padding it adds at both ends.
+            let len = chunk.len();
+            let shortest = 3 * (2 * bandpass_filter.sos.len() + 1) + 1;
+            chunk.resize(len.max(shortest), 0f64);
+            sosfiltfilt_dyn(chunk.into_iter(), &bandpass_filter.sos)
+                .into_iter()
+                .take(len)
+        })
 }
 
 #[cfg(test)]
-- 
2.43.0


From 26621da22c185e90d908055800f8932ca8075794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 28/33] Expose the root-raised-cosine filter to the checker
 under cfg(kmc)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3dcdb19..0acaf11 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -45,6 +45,12 @@ use crate::ssca::{ssca_base, ssca_mapped};
 
 pub type Bit = bool;
 
+/// Access to the private pulse shape for the model checker (`--cfg kmc` only).
+#[cfg(kmc)]
+pub mod kmc_hook {
+    pub use crate::filters::rrcosfilter;
+}
+
 fn bool_to_u8(bools: &[bool]) -> u8 {
     let mut out: u8 = 0x0;
     for (i, &bool) in bools.iter().enumerate().take(std::cmp::min(bools.len(), 8)) {
-- 
2.43.0


From 4bd45de4f370130aa235111469661f051e688c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 29/33] fix: scale the root-raised-cosine taps by the symbol
 length and treat their singular points

---
 src/filters.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index baf1505..7f0d10d 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -6,14 +6,16 @@ pub fn rrcosfilter(taps: usize, beta: f64, symbol_length: f64, samp_rate: f64) -
         .map(|i| {
             let t = ((i as f64) - (taps as f64) / 2f64) / samp_rate;
             if t == 0f64 {
-                1f64 / ts + beta * (4f64 / PI - 1f64)
-            } else if beta != 0f64 && (t == ts / (2f64 * beta) || ts == -ts / (2f64 * beta)) {
+                1f64 / ts * (1f64 + beta * (4f64 / PI - 1f64))
+            } else if (1f64 - (4f64 * beta * t / ts).powi(2)).abs() < 1e-8 {
+                // Both parts of the fraction vanish at +-ts / (4 * beta).
                 beta / (ts * 2f64.sqrt())
                     * ((1f64 + 2f64 / PI) * (PI / (4f64 * beta)).sin()
                         + (1f64 - 2f64 / PI) * (PI / (4f64 * beta)).cos())
             } else {
-                ((1f64 / ts) * (PI * t / ts * (1f64 - beta)).sin()
-                    + 4f64 * beta * t / ts * (PI * t / ts * (1f64 + beta)).cos())
+                (1f64 / ts)
+                    * ((PI * t / ts * (1f64 - beta)).sin()
+                        + 4f64 * beta * t / ts * (PI * t / ts * (1f64 + beta)).cos())
                     / (PI * t / ts * (1f64 - (4f64 * beta * t / ts).powi(2)))
             }
         })
-- 
2.43.0


From ba19e7be2979f7fa80253844741e71c9171c3ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 30/33] fix: give tied detector values the rates of their
 shared threshold

---
 kom_py/lambdas.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/kom_py/lambdas.py b/kom_py/lambdas.py
index aa4edfc..254206d 100644
--- a/kom_py/lambdas.py
+++ b/kom_py/lambdas.py
@@ -98,16 +98,11 @@ def __log_regress(
     )
 
     # sort it by predicted probabilities
-    # because thresholds[1:] = y_proba[::-1]
     df_test.sort_values(by="proba", inplace=True)
-    if len(tpr) == len(h0_λs):
-        df_test["tpr"] = tpr[::-1]
-    else:
-        df_test["tpr"] = tpr[1:][::-1]
-    if len(fpr) == len(h0_λs):
-        df_test["fpr"] = fpr[::-1]
-    else:
-        df_test["fpr"] = fpr[1:][::-1]
+    # each row's rates are those at its own probability (tied rows share a threshold)
+    rows = np.searchsorted(-thresholds, -df_test["proba"])
+    df_test["tpr"] = tpr[rows]
+    df_test["fpr"] = fpr[rows]
     df_test["youden_j"] = df_test.tpr - df_test.fpr
     if return_lr:
         return df_test, log_regression
-- 
2.43.0


From 119084d2009cee893548fefd911f52cad98407f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 31/33] fix: plot_auc_vs_snr computes the AUC from the
 regression of the values

---
 kom_py/lambdas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kom_py/lambdas.py b/kom_py/lambdas.py
index 254206d..f58c35d 100644
--- a/kom_py/lambdas.py
+++ b/kom_py/lambdas.py
@@ -129,7 +129,9 @@ def plot_multi_roc_curve(lrs: List[pd.DataFrame], label=""):
 
 
 def plot_auc_vs_snr(h0_λs: List[np.array], h1_λs: List[np.array], snrs: List[float]):
-    aucs: List[float] = [__auc(h0_λ, h1_λ) for h0_λ, h1_λ in zip(h0_λs, h1_λs)]
+    aucs: List[float] = [
+        __auc(__log_regress(h0_λ, h1_λ)) for h0_λ, h1_λ in zip(h0_λs, h1_λs)
+    ]
     fig, ax = plt.subplots()
     ax.plot(db(snrs), aucs)
     ax.set_xlabel("SNR (db)")
-- 
2.43.0


From ea3b19f6bdff472aeafc1b55d9db53807ea52958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 32/33] fix: plot_best_lambda marks the threshold and accepts a
 regression

---
 kom_py/lambdas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kom_py/lambdas.py b/kom_py/lambdas.py
index f58c35d..0911eef 100644
--- a/kom_py/lambdas.py
+++ b/kom_py/lambdas.py
@@ -193,7 +193,7 @@ def plot_youden_j_with_multiple_modulations(
 
 def plot_best_lambda(h0_λs: np.array, h1_λs: np.array, lr=None):
     # Get cutoff
-    if not lr:
+    if lr is None:
         lr = __log_regress(h0_λs, h1_λs)
     cut_off = __best_threshold(lr)
 
@@ -209,7 +209,7 @@ def plot_best_lambda(h0_λs: np.array, h1_λs: np.array, lr=None):
     fig, ax = plt.subplots()
     ax.plot(x_hist, h0_hist.pdf(x_hist))
     ax.plot(x_hist, h1_hist.pdf(x_hist))
-    ax.axvline(cut_off.x, color="k", ls="--")
+    ax.axvline(cut_off, color="k", ls="--")
 
 
 def __best_threshold(lr: pd.DataFrame) -> float:
-- 
2.43.0


From 47090bcf2de6acaea26650fdc6380ba2d2e18c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 33/33] fix: noise_sig adds the noise to the signal it is given

---
 kom_py/ber.py        | 2 +-
 kom_py/ber_theory.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kom_py/ber.py b/kom_py/ber.py
index 6438cc0..2afcd8d 100644
--- a/kom_py/ber.py
+++ b/kom_py/ber.py
@@ -43,7 +43,7 @@ def get_ber(data, tx_sig, rx_func, n0) -> float:
 
 
 def noise_sig(tx_sig, n0, konst) -> float:
-    return [s_i + gauss(sigma=n0) * konst for s_i in signal]
+    return [s_i + gauss(sigma=n0) * konst for s_i in tx_sig]
 
 
 def calc_ber(ber_test: BitErrorTestResults) -> BitErrorTestResults:
diff --git a/kom_py/ber_theory.py b/kom_py/ber_theory.py
index 6628a65..9c86e87 100644
--- a/kom_py/ber_theory.py
+++ b/kom_py/ber_theory.py
@@ -39,7 +39,7 @@ def get_ber(data, tx_sig, rx_func, n0) -> float:
 
 
 def noise_sig(tx_sig, n0, konst) -> float:
-    return [s_i + gauss(sigma=n0) * konst for s_i in signal]
+    return [s_i + gauss(sigma=n0) * konst for s_i in tx_sig]
 
 
 ##
-- 
2.43.0

