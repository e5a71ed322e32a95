//! An independent decoder of the documented file layout. It shares no code with the library: it
//! reads FlatBuffers tables by their vtables and indexes by their published sizes.

use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct AttrSection {
    pub column: u16,
    pub name: String,
    pub coltype: u8,
    pub start: usize,
    pub len: usize,
    pub bf: u16,
    pub num: usize,
    /// (key bytes, offsets into the feature section) in leaf order
    pub leaves: Vec<(Vec<u8>, Vec<u64>)>,
}

#[derive(Clone, Debug)]
pub struct Layout {
    pub header_size: usize,
    pub version: String,
    pub count: u64,
    pub node_size: u16,
    pub columns: Vec<(u16, String, u8)>,
    pub rtree: (usize, usize),
    /// rtree leaves: (box, offset into the feature section)
    pub rtree_leaves: Vec<([f64; 4], u64)>,
    pub attr: Vec<AttrSection>,
    pub feat_start: usize,
    /// (absolute start, total length with size prefix, id)
    pub feats: Vec<(usize, usize, String)>,
    pub len: usize,
}

type R<T> = Result<T, String>;

fn get(b: &[u8], at: usize, n: usize) -> R<&[u8]> {
    b.get(at..at.wrapping_add(n))
        .ok_or_else(|| format!("{} bytes at {} are outside a buffer of {}", n, at, b.len()))
}
pub fn u16_at(b: &[u8], at: usize) -> R<u16> {
    Ok(u16::from_le_bytes(get(b, at, 2)?.try_into().unwrap()))
}
pub fn u32_at(b: &[u8], at: usize) -> R<u32> {
    Ok(u32::from_le_bytes(get(b, at, 4)?.try_into().unwrap()))
}
pub fn u64_at(b: &[u8], at: usize) -> R<u64> {
    Ok(u64::from_le_bytes(get(b, at, 8)?.try_into().unwrap()))
}
pub fn f64_at(b: &[u8], at: usize) -> R<f64> {
    Ok(f64::from_bits(u64_at(b, at)?))
}

/// A FlatBuffers table.
#[derive(Clone, Copy)]
pub struct Table<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> Table<'a> {
    /// `b` starts at the size prefix's end (offset 0 is the root offset).
    pub fn root(b: &'a [u8]) -> R<Table<'a>> {
        Ok(Table {
            b,
            at: u32_at(b, 0)? as usize,
        })
    }
    /// Where field `slot` (0-based) is stored.
    fn field(&self, slot: usize) -> R<Option<usize>> {
        let so = u32_at(self.b, self.at)? as i32;
        let vt = (self.at as i64 - so as i64) as usize;
        let size = u16_at(self.b, vt)? as usize;
        let at = 4 + 2 * slot;
        if at + 2 > size {
            return Ok(None);
        }
        let o = u16_at(self.b, vt + at)? as usize;
        Ok(if o == 0 { None } else { Some(self.at + o) })
    }
    fn indirect(&self, slot: usize) -> R<Option<usize>> {
        Ok(match self.field(slot)? {
            None => None,
            Some(p) => Some(p + u32_at(self.b, p)? as usize),
        })
    }
    pub fn string(&self, slot: usize) -> R<Option<String>> {
        Ok(match self.indirect(slot)? {
            None => None,
            Some(p) => {
                let n = u32_at(self.b, p)? as usize;
                Some(String::from_utf8(get(self.b, p + 4, n)?.to_vec()).map_err(|e| e.to_string())?)
            }
        })
    }
    pub fn table(&self, slot: usize) -> R<Option<Table<'a>>> {
        Ok(self.indirect(slot)?.map(|at| Table { b: self.b, at }))
    }
    pub fn tables(&self, slot: usize) -> R<Option<Vec<Table<'a>>>> {
        Ok(match self.indirect(slot)? {
            None => None,
            Some(p) => {
                let n = u32_at(self.b, p)? as usize;
                let mut v = vec![];
                for i in 0..n {
                    let q = p + 4 + 4 * i;
                    v.push(Table {
                        b: self.b,
                        at: q + u32_at(self.b, q)? as usize,
                    });
                }
                Some(v)
            }
        })
    }
    /// (offset of the first element, count)
    pub fn vector(&self, slot: usize) -> R<Option<(usize, usize)>> {
        Ok(match self.indirect(slot)? {
            None => None,
            Some(p) => Some((p + 4, u32_at(self.b, p)? as usize)),
        })
    }
    pub fn u16(&self, slot: usize, default: u16) -> R<u16> {
        self.field(slot)?.map_or(Ok(default), |p| u16_at(self.b, p))
    }
    pub fn u64(&self, slot: usize, default: u64) -> R<u64> {
        self.field(slot)?.map_or(Ok(default), |p| u64_at(self.b, p))
    }
    pub fn u8(&self, slot: usize, default: u8) -> R<u8> {
        match self.field(slot)? {
            None => Ok(default),
            Some(p) => Ok(get(self.b, p, 1)?[0]),
        }
    }
    pub fn bytes(&self, at: usize, n: usize) -> R<&'a [u8]> {
        get(self.b, at, n)
    }
    pub fn u32s(&self, slot: usize) -> R<Option<Vec<u32>>> {
        Ok(match self.vector(slot)? {
            None => None,
            Some((p, n)) => Some((0..n).map(|i| u32_at(self.b, p + 4 * i)).collect::<R<_>>()?),
        })
    }
    pub fn strings(&self, slot: usize) -> R<Option<Vec<String>>> {
        Ok(match self.vector(slot)? {
            None => None,
            Some((p, n)) => {
                let mut v = vec![];
                for i in 0..n {
                    let q = p + 4 * i;
                    let s = q + u32_at(self.b, q)? as usize;
                    let len = u32_at(self.b, s)? as usize;
                    v.push(String::from_utf8(get(self.b, s + 4, len)?.to_vec()).map_err(|e| e.to_string())?);
                }
                Some(v)
            }
        })
    }
    pub fn u32(&self, slot: usize) -> R<Option<u32>> {
        self.field(slot)?.map(|p| u32_at(self.b, p)).transpose()
    }
    pub fn f64s(&self, at: usize, n: usize) -> R<Vec<f64>> {
        (0..n).map(|i| f64_at(self.b, at + 8 * i)).collect()
    }
    pub fn structure(&self, slot: usize) -> R<Option<usize>> {
        self.field(slot)
    }
}

pub fn key_size(coltype: u8) -> R<usize> {
    Ok(match coltype {
        0..=2 => 1,
        3 | 4 => 2,
        5 | 6 | 9 => 4,
        7 | 8 | 10 => 8,
        11 => 50,
        13 => 12,
        12 | 14 => 100,
        t => return Err(format!("column type {} has no index key", t)),
    })
}

pub fn btree_nodes(num: usize, bf: usize) -> usize {
    let mut n = num;
    let mut total = n;
    loop {
        n = n.div_ceil(bf);
        total += n;
        if n < bf {
            return total;
        }
    }
}

fn rtree_nodes(num: usize, node: usize) -> usize {
    let mut n = num;
    let mut total = n;
    loop {
        n = n.div_ceil(node);
        total += n;
        if n == 1 {
            return total;
        }
    }
}

pub fn decode(b: &[u8]) -> R<Layout> {
    let magic = get(b, 0, 8)?;
    if magic != [b'f', b'c', b'b', 1, b'f', b'c', b'b', 0] {
        return Err(format!("signature {:?}", magic));
    }
    let hs = u32_at(b, 8)? as usize;
    let h = get(b, 12, hs)?;
    let root = Table::root(h)?;
    let mut columns = vec![];
    if let Some(cols) = root.tables(2)? {
        for c in cols {
            columns.push((
                c.u16(0, 0)?,
                c.string(1)?.ok_or("a column without a name")?,
                c.u8(2, 0)?,
            ));
        }
    }
    let count = root.u64(4, 0)?;
    let node_size = root.u16(5, 16)?;
    let version = root.string(27)?.ok_or("no version")?;
    let mut at = 12 + hs;
    let mut rtree = (at, 0);
    let mut rtree_leaves = vec![];
    if node_size > 0 && count > 0 {
        if count > b.len() as u64 {
            return Err(format!("the header announces {} features", count));
        }
        let n = rtree_nodes(count as usize, (node_size as usize).max(2));
        rtree = (at, n * 40);
        let t = get(b, at, n * 40)?;
        for i in n - count as usize..n {
            let p = i * 40;
            rtree_leaves.push((
                [f64_at(t, p)?, f64_at(t, p + 8)?, f64_at(t, p + 16)?, f64_at(t, p + 24)?],
                u64_at(t, p + 32)?,
            ));
        }
        at += n * 40;
    }
    let mut attr = vec![];
    if let Some((p, n)) = root.vector(6)? {
        for i in 0..n {
            // struct {u16 index, u32 length, u16 branching factor, u32 items}, each at its alignment
            let q = p + 16 * i;
            let column = u16_at(h, q)?;
            let len = u32_at(h, q + 4)? as usize;
            let bf = u16_at(h, q + 8)?;
            let num = u32_at(h, q + 12)? as usize;
            let col = columns
                .iter()
                .find(|c| c.0 == column)
                .ok_or(format!("index on unknown column {}", column))?;
            let s = get(b, at, len)?;
            let ks = key_size(col.2)?;
            let mut leaves = vec![];
            if num > 0 {
                let nodes = btree_nodes(num, (bf as usize).max(2));
                let payload = nodes * (ks + 8);
                for k in nodes - num..nodes {
                    let e = k * (ks + 8);
                    let key = get(s, e, ks)?.to_vec();
                    let off = u64_at(s, e + ks)?;
                    let mut offs = vec![];
                    if off >> 63 == 1 {
                        let r = payload + (off & !(1 << 63)) as usize;
                        let c = u32_at(s, r)? as usize;
                        for j in 0..c {
                            offs.push(u64_at(s, r + 4 + 8 * j)?);
                        }
                    } else {
                        offs.push(off);
                    }
                    leaves.push((key, offs));
                }
            }
            attr.push(AttrSection {
                column,
                name: col.1.clone(),
                coltype: col.2,
                start: at,
                len,
                bf,
                num,
                leaves,
            });
            at += len;
        }
    }
    let feat_start = at;
    let mut feats = vec![];
    while at < b.len() {
        let n = u32_at(b, at)? as usize;
        let f = get(b, at + 4, n)?;
        let id = Table::root(f)?.string(0)?.ok_or("a feature without id")?;
        feats.push((at, n + 4, id));
        at += n + 4;
    }
    Ok(Layout {
        header_size: hs,
        version,
        count,
        node_size,
        columns,
        rtree,
        rtree_leaves,
        attr,
        feat_start,
        feats,
        len: b.len(),
    })
}

impl Layout {
    /// What every complete file must satisfy.
    pub fn check(&self) -> R<()> {
        if self.count != self.feats.len() as u64 {
            return Err(format!(
                "the header announces {} features, the file holds {}",
                self.count,
                self.feats.len()
            ));
        }
        let starts: BTreeSet<u64> = self
            .feats
            .iter()
            .map(|f| (f.0 - self.feat_start) as u64)
            .collect();
        if self.rtree.1 > 0 {
            let mut seen = BTreeSet::new();
            for (_, o) in &self.rtree_leaves {
                if !starts.contains(o) {
                    return Err(format!("spatial index entry {} is not the start of a feature", o));
                }
                seen.insert(*o);
            }
            if seen != starts {
                return Err("the spatial index does not reach every feature".into());
            }
            let offs: Vec<u64> = self.rtree_leaves.iter().map(|x| x.1).collect();
            if offs.windows(2).any(|w| w[0] >= w[1]) {
                return Err("spatial index leaves are not in storage order".into());
            }
        }
        for a in &self.attr {
            for (_, offs) in &a.leaves {
                for o in offs {
                    if !starts.contains(o) {
                        return Err(format!(
                            "entry {} of the index on {:?} is not the start of a feature",
                            o, a.name
                        ));
                    }
                }
            }
        }
        Ok(())
    }
    pub fn order(&self) -> Vec<&str> {
        self.feats.iter().map(|f| f.2.as_str()).collect()
    }
}
