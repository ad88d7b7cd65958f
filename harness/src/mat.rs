//! C14, C15: sparse matrices.

use numopt::matrix::coo::CooMat;
use numopt::matrix::csr::CsrMat;
use symrt::*;

/// A coordinate matrix of any shape and pattern within the bounds, with symbolic values.
#[derive(Clone)]
pub struct Pat { pub shape: (usize, usize), pub rows: Vec<usize>, pub cols: Vec<usize>, pub vals: Vec<f64> }

pub fn pattern(name: &str, maxr: usize, maxc: usize, maxk: usize) -> Pat {
    let r = choose("rows", maxr + 1);
    let c = choose("cols", maxc + 1);
    pattern_of(name, r, c, maxk)
}
pub fn pattern_of(name: &str, r: usize, c: usize, maxk: usize) -> Pat {
    let k = if r == 0 || c == 0 { 0 } else { choose("nnz", maxk + 1) };
    let (mut rows, mut cols, mut vals) = (Vec::new(), Vec::new(), Vec::new());
    for i in 0..k {
        let p = choose("position", r * c);
        rows.push(p / c);
        cols.push(p % c);
        vals.push(real(&format!("{}{}", name, i)));
    }
    Pat { shape: (r, c), rows, cols, vals }
}
impl Pat {
    pub fn coo(&self) -> CooMat<f64> { CooMat::new(self.shape, self.rows.clone(), self.cols.clone(), self.vals.clone()) }
    pub fn nnz(&self) -> usize { self.vals.len() }
    /// The value at a position: the sum of its triplets.
    pub fn at(&self, r: usize, c: usize) -> f64 {
        let mut s = 0.;
        for k in 0..self.nnz() { if self.rows[k] == r && self.cols[k] == c { s = s + self.vals[k]; } }
        s
    }
}

/// A larger matrix, its positions drawn from a fixed seed: wide, tall, with many entries in one
/// row, in descending order, with long runs of equal positions.
pub fn large(name: &str, seed: usize) -> Pat {
    let (r, c, k) = [(6, 7, 40), (1, 70, 90), (70, 3, 100), (40, 40, 64), (3, 300, 48), (12, 12, 150), (5, 5, 25), (2, 33, 66)][seed % 8];
    if seed >= 32 { return far(name, seed - 32); }
    let mut g = (seed as u64 + 5).wrapping_mul(0x9e3779b97f4a7c15);
    let mut pick = |n: usize| { g = g.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((g >> 33) % n as u64) as usize };
    let (mut rows, mut cols, mut vals): (Vec<usize>, Vec<usize>, Vec<f64>) = (Vec::new(), Vec::new(), Vec::new());
    for i in 0..k {
        let q = match seed / 8 % 4 {
            0 => (pick(r), pick(c)),
            1 => (r - 1 - i * r / k, c - 1 - pick(c)),
            2 => (pick(1 + r / 2), if i % 3 == 2 { cols[i - 2] } else { pick(c) }),
            _ => if i % 4 == 3 { (rows[i - 1], cols[i - 1]) } else { (i * 7 % r, (i * i + i) % c) },
        };
        rows.push(q.0);
        cols.push(q.1);
        vals.push(real(&format!("{}{}", name, i)));
    }
    Pat { shape: (r, c), rows, cols, vals }
}
/// Large index values: rows and columns around the ends of 8 and 16-bit ranges.
fn far(name: &str, seed: usize) -> Pat {
    let idx = [0, 66000, 255, 256, 65535, 254, 511, 65536, 257, 512, 32768, 128, 127, 65537, 255, 256, 0, 66000, 65535, 65536];
    let (mut rows, mut cols, mut vals) = (Vec::new(), Vec::new(), Vec::new());
    for i in 0..idx.len() {
        let (a, b) = (idx[(i * [1, 3, 7][seed / 2 % 3]) % idx.len()], i * i % 3);
        if seed % 2 == 0 { rows.push(a); cols.push(b); } else { rows.push(b); cols.push(a); }
        vals.push(real(&format!("{}{}", name, i)));
    }
    Pat { shape: if seed % 2 == 0 { (66001, 3) } else { (3, 66001) }, rows, cols, vals }
}
/// `k` positions of an r x c matrix drawn from a fixed seed, some of them repeated; lower-triangular on demand.
pub fn drawn(name: &str, seed: usize, r: usize, c: usize, k: usize, low: bool) -> Pat {
    let mut g = (seed as u64 + 11).wrapping_mul(0x9e3779b97f4a7c15);
    let mut pick = |n: usize| { g = g.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((g >> 33) % n as u64) as usize };
    let mut p = Pat { shape: (r, c), rows: vec![], cols: vec![], vals: vec![] };
    for i in 0..if r == 0 || c == 0 { 0 } else { k } {
        let (mut a, mut b) = (pick(r), pick(c));
        if i > 1 && pick(4) == 0 { a = p.rows[i - 2]; b = p.cols[i - 2]; }
        if low && b > a { std::mem::swap(&mut a, &mut b); }
        p.rows.push(a);
        p.cols.push(b);
        p.vals.push(real(&format!("{}{}", name, i)));
    }
    p
}
fn pattern_from(name: &str, b: &[usize]) -> Pat {
    if b[0] == 999 { large(name, choose("pattern", b[1])) } else { pattern(name, b[0], b[1], b[2]) }
}

/// The same matrix through one of the three constructors.
fn construct(p: &Pat, how: usize) -> CooMat<f64> {
    match how {
        0 => p.coo(),
        1 => {
            let mut m = CooMat::from_pattern(p.shape, p.rows.clone(), p.cols.clone());
            for v in m.data().iter() { prove_same("from_pattern is zero", *v, 0.); }
            for (d, v) in m.data_mut().iter_mut().zip(p.vals.iter()) { *d = *v; }
            m
        }
        _ => {
            let mut m: CooMat<f64> = CooMat::from_nnz(p.shape, p.nnz());
            for v in m.data().iter() { prove_same("from_nnz is zero", *v, 0.); }
            for k in 0..p.nnz() {
                m.set_row_ind(k, p.rows[k]);
                m.set_col_ind(k, p.cols[k]);
                m.data_mut()[k] = p.vals[k];
            }
            m
        }
    }
}

pub fn c14(b: &[usize]) {
    let p = pattern_from("m", b);
    let m = construct(&p, choose("constructor", 3));
    note(&format!("{:?} rows {:?} cols {:?}", p.shape, p.rows, p.cols));
    check("shape", m.rows() == p.shape.0 && m.cols() == p.shape.1 && m.nnz() == p.nnz());
    check("indices", m.row_inds() == &p.rows[..] && m.col_inds() == &p.cols[..]);
    let far = p.shape.0.max(p.shape.1) > 1000;
    let v: Vec<f64> = (0..p.shape.1).map(|i| if far && !p.cols.contains(&i) { 3. } else { real(&format!("v{}", i)) }).collect();
    let y = &m * v.clone();
    check("length", y.len() == p.shape.0);
    for r in 0..p.shape.0 {
        if far && !p.rows.contains(&r) { check("row without entries", sym_id(y[r]).is_none() && y[r] == 0.); continue; }
        let mut s = 0.;
        for c in 0..p.shape.1 { if !far || p.cols.contains(&c) { s = s + p.at(r, c) * v[c]; } }
        prove_same("product", y[r], s);
    }
    for _ in 0..2 {
        let seen: Vec<(usize, usize, f64)> = m.iter().take(p.nnz() + 1).map(|(r, c, d)| (*r, *c, *d)).collect();
        check("iteration yields every triplet once", seen.len() == p.nnz());
        for (k, (r, c, d)) in seen.iter().enumerate() {
            check("iteration order", *r == p.rows[k] && *c == p.cols[k]);
            prove_same("iterated value", *d, p.vals[k]);
        }
    }
    let y2 = &m * v.clone();
    for r in 0..p.shape.0 { if !far || p.rows.contains(&r) { prove_same("product again", y2[r], y[r]); } }
    reached("multiplied");
    if p.nnz() >= 2 && (0..p.nnz()).any(|i| (0..i).any(|k| p.rows[i] == p.rows[k] && p.cols[i] == p.cols[k])) { reached("duplicates"); }
    if p.shape.0 == 0 { reached("no rows"); }
}

fn well_formed(m: &CsrMat<f64>, shape: (usize, usize)) -> bool {
    let p = m.indptr();
    m.rows() == shape.0 && m.cols() == shape.1 && p.len() == shape.0 + 1 && p[0] == 0
        && (0..shape.0).all(|i| p[i] <= p[i + 1]) && p[shape.0] == m.nnz() && m.indices().len() == m.nnz() && m.data().len() == m.nnz()
        && m.indices().iter().all(|c| *c < shape.1)
}
fn row_of(m: &CsrMat<f64>, r: usize) -> Vec<(usize, f64)> {
    (m.indptr()[r]..m.indptr()[r + 1]).map(|k| (m.indices()[k], m.data()[k])).collect()
}

pub fn c15(b: &[usize]) {
    let p = pattern_from("m", b);
    let m = p.coo();
    note(&format!("{:?} rows {:?} cols {:?}", p.shape, p.rows, p.cols));
    let mut s = m.to_csr();
    check("well formed", well_formed(&s, p.shape));
    for r in 0..p.shape.0 {
        let want: Vec<usize> = (0..p.nnz()).filter(|k| p.rows[*k] == r).collect();
        let got = row_of(&s, r);
        check("row length", got.len() == want.len());
        for (g, k) in got.iter().zip(want.iter()) {
            check("row columns in order", g.0 == p.cols[*k]);
            prove_same("row value", g.1, p.vals[*k]);
        }
    }
    for round in 0..2 {
        s.sum_duplicates();
        check("still well formed", well_formed(&s, p.shape));
        for r in 0..p.shape.0 {
            let mut want: Vec<usize> = Vec::new();
            for k in 0..p.nnz() { if p.rows[k] == r && !want.contains(&p.cols[k]) { want.push(p.cols[k]); } }
            let got = row_of(&s, r);
            check("each column once, in order of first appearance", got.iter().map(|g| g.0).collect::<Vec<_>>() == want);
            for g in got.iter() {
                prove_same(if round == 0 { "summed value" } else { "summed again" }, g.1, p.at(r, g.0));
            }
        }
    }
    // the coordinate matrix is untouched
    check("source unchanged", m.row_inds() == &p.rows[..] && m.col_inds() == &p.cols[..] && m.nnz() == p.nnz());
    reached("converted");
    if s.nnz() < p.nnz() { reached("summed"); }
}
