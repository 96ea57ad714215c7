//! Independent reference implementation of the documented node format: a canonical radix trie
//! built from an ordered map, an encoder and a strict decoder. Shares no code with radixdb.
use std::collections::BTreeMap;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Debug, Clone, Default, PartialEq)]
pub struct TNode {
    pub prefix: Vec<u8>,
    pub value: Option<Vec<u8>>,
    pub children: Vec<TNode>,
}

/// The one canonical radix trie of a map
pub fn canonical(map: &Map) -> TNode {
    let entries: Vec<(&[u8], &[u8])> = map.iter().map(|(k, v)| (k.as_slice(), v.as_slice())).collect();
    if entries.is_empty() {
        return TNode::default();
    }
    build(&entries, 0)
}

fn build(e: &[(&[u8], &[u8])], depth: usize) -> TNode {
    let first = e[0].0;
    let last = e[e.len() - 1].0;
    let mut n = depth;
    while n < first.len() && n < last.len() && first[n] == last[n] {
        n += 1;
    }
    let mut node = TNode { prefix: first[depth..n].to_vec(), ..Default::default() };
    let mut rest = e;
    if first.len() == n {
        node.value = Some(e[0].1.to_vec());
        rest = &e[1..];
    }
    while !rest.is_empty() {
        let b = rest[0].0[n];
        let k = rest.iter().take_while(|x| x.0[n] == b).count();
        node.children.push(build(&rest[..k], n));
        rest = &rest[k..];
    }
    node
}

pub struct EncodeError(pub String);

/// Encode per the documented format; `write` stores a blob and returns its id
pub fn encode(n: &TNode, out: &mut Vec<u8>, write: &mut dyn FnMut(&[u8]) -> Result<Vec<u8>, EncodeError>) -> Result<(), EncodeError> {
    if n.prefix.len() <= 127 {
        out.push(n.prefix.len() as u8);
        out.extend_from_slice(&n.prefix);
    } else {
        let id = write(&n.prefix)?;
        out.push(0x80 | (id.len() + 1) as u8);
        out.push(n.prefix[0]);
        out.extend_from_slice(&id);
    }
    match &n.value {
        None => out.push(0x80),
        Some(v) if v.len() <= 127 => {
            out.push(v.len() as u8);
            out.extend_from_slice(v);
        }
        Some(v) => {
            let id = write(v)?;
            out.push(0x80 | id.len() as u8);
            out.extend_from_slice(&id);
        }
    }
    if n.children.is_empty() {
        out.push(0x80);
    } else {
        let mut buf = Vec::new();
        let mut sizes = Vec::new();
        for c in &n.children {
            let at = buf.len();
            encode(c, &mut buf, write)?;
            sizes.push(buf.len() - at);
        }
        let rs = if sizes.iter().all(|s| *s == sizes[0]) && sizes[0] < 256 { sizes[0] as u8 } else { 0 };
        let id = write(&buf)?;
        out.push(0x80 | (id.len() + 1) as u8);
        out.push(rs);
        out.extend_from_slice(&id);
    }
    Ok(())
}

/// A decoded node with the ids it refers to
#[derive(Debug, Clone)]
pub struct DNode {
    pub prefix: Vec<u8>,
    pub prefix_id: Option<Vec<u8>>,
    pub value: Option<Vec<u8>>,
    pub value_id: Option<Vec<u8>>,
    pub children_id: Option<Vec<u8>>,
    pub children: Vec<DNode>,
}

pub type Reader<'a> = dyn FnMut(&[u8]) -> Result<Vec<u8>, String> + 'a;

struct Field<'a> {
    id: bool,
    data: &'a [u8],
}

fn field<'a>(rest: &mut &'a [u8], what: &str) -> Result<Field<'a>, String> {
    let h = *rest.first().ok_or_else(|| format!("truncated record: no {} header", what))?;
    let len = (h & 0x7f) as usize;
    if rest.len() < 1 + len {
        return Err(format!("truncated record: {} of {} bytes", what, len));
    }
    let data = &rest[1..1 + len];
    *rest = &rest[1 + len..];
    Ok(Field { id: h & 0x80 != 0, data })
}

fn decode_one(rest: &mut &[u8], root: bool, read: &mut Reader) -> Result<DNode, String> {
    let p = field(rest, "prefix")?;
    let v = field(rest, "value")?;
    let c = field(rest, "children")?;
    let mut n = DNode { prefix: vec![], prefix_id: None, value: None, value_id: None, children_id: None, children: vec![] };
    if p.id {
        if p.data.len() < 2 {
            return Err("indirect prefix without first byte or id".into());
        }
        let data = read(&p.data[1..])?;
        if data.len() <= 127 {
            return Err(format!("prefix of {} bytes stored indirectly", data.len()));
        }
        if data[0] != p.data[0] {
            return Err("first byte of an indirect prefix does not match".into());
        }
        n.prefix = data;
        n.prefix_id = Some(p.data[1..].to_vec());
    } else {
        n.prefix = p.data.to_vec();
    }
    if n.prefix.is_empty() && !root {
        return Err("empty prefix below the root".into());
    }
    if v.id {
        if !v.data.is_empty() {
            let data = read(v.data)?;
            if data.len() <= 127 {
                return Err(format!("value of {} bytes stored indirectly", data.len()));
            }
            n.value = Some(data);
            n.value_id = Some(v.data.to_vec());
        }
    } else {
        n.value = Some(v.data.to_vec());
    }
    if !c.id {
        return Err("children stored inline".into());
    }
    if !c.data.is_empty() {
        if c.data.len() < 2 {
            return Err("children reference without record size or id".into());
        }
        let rs = c.data[0] as usize;
        let id = &c.data[1..];
        let blob = read(id)?;
        if blob.is_empty() {
            return Err("empty children blob".into());
        }
        let mut r = &blob[..];
        let mut sizes = vec![];
        while !r.is_empty() {
            let before = r.len();
            let child = decode_one(&mut r, false, read)?;
            sizes.push(before - r.len());
            if let Some(prev) = n.children.last() {
                let prev: &DNode = prev;
                if prev.prefix[0] >= child.prefix[0] {
                    return Err("children not strictly ordered by their first byte".into());
                }
            }
            n.children.push(child);
        }
        if rs != 0 && sizes.iter().any(|s| *s != rs) {
            return Err(format!("record size {} but records have sizes {:?}", rs, sizes));
        }
        if rs == 0 && sizes[0] < 256 && sizes.iter().all(|s| *s == sizes[0]) {
            return Err(format!("records all have size {} but no record size is given", sizes[0]));
        }
        n.children_id = Some(id.to_vec());
    }
    if n.value.is_none() && n.children.is_empty() && !root {
        return Err("node with neither value nor children".into());
    }
    Ok(n)
}

pub fn decode_root(data: &[u8], read: &mut Reader) -> Result<DNode, String> {
    let mut rest = data;
    let n = decode_one(&mut rest, true, read)?;
    if !rest.is_empty() {
        return Err(format!("{} bytes after the root record", rest.len()));
    }
    if n.value.is_none() && n.children.is_empty() && !n.prefix.is_empty() {
        return Err("empty root with a prefix".into());
    }
    Ok(n)
}

impl DNode {
    pub fn contents(&self) -> Map {
        let mut m = Map::new();
        self.collect(&mut Vec::new(), &mut m);
        m
    }
    fn collect(&self, path: &mut Vec<u8>, m: &mut Map) {
        let n = path.len();
        path.extend_from_slice(&self.prefix);
        if let Some(v) = &self.value {
            m.insert(path.clone(), v.clone());
        }
        for c in &self.children {
            c.collect(path, m);
        }
        path.truncate(n);
    }
    pub fn to_trie(&self) -> TNode {
        TNode { prefix: self.prefix.clone(), value: self.value.clone(), children: self.children.iter().map(|c| c.to_trie()).collect() }
    }
    /// Ids a lookup of `key` may have to read. The value itself is not included.
    pub fn search_ids(&self, key: &[u8], out: &mut Vec<Vec<u8>>) {
        if let Some(id) = &self.prefix_id {
            out.push(id.clone());
        }
        let n = self.prefix.iter().zip(key).take_while(|(a, b)| a == b).count();
        if n < self.prefix.len() || n == key.len() {
            return;
        }
        if let Some(id) = &self.children_id {
            out.push(id.clone());
            if let Some(c) = self.children.iter().find(|c| c.prefix[0] == key[n]) {
                c.search_ids(&key[n..], out);
            }
        }
    }
    /// Ids a listing of the keys below `key` may have to read
    pub fn scan_ids(&self, key: &[u8], values: bool, out: &mut Vec<Vec<u8>>) {
        out.extend(self.prefix_id.clone());
        let n = self.prefix.iter().zip(key).take_while(|(a, b)| a == b).count();
        if n == key.len() {
            out.extend(self.value_id.clone().filter(|_| values));
            out.extend(self.children_id.clone());
            for c in &self.children {
                c.scan_ids(&[], values, out);
            }
        } else if n == self.prefix.len() {
            if let Some(id) = &self.children_id {
                out.push(id.clone());
                if let Some(c) = self.children.iter().find(|c| c.prefix[0] == key[n]) {
                    c.scan_ids(&key[n..], values, out);
                }
            }
        }
    }
    /// Ids an update of `key` may have to read: its path, the
    /// children of the node where it ends, and, if something is removed, the
    /// prefix of a node that may have to be merged with its parent
    pub fn update_ids(&self, key: &[u8], remove: bool, out: &mut Vec<Vec<u8>>) {
        out.extend(self.prefix_id.clone());
        let n = self.prefix.iter().zip(key).take_while(|(a, b)| a == b).count();
        if let Some(id) = &self.children_id {
            if n < self.prefix.len() {
                return;
            }
            out.push(id.clone());
            if remove {
                out.extend(self.children.iter().filter_map(|c| c.prefix_id.clone()));
            }
            if n < key.len() {
                if let Some(c) = self.children.iter().find(|c| c.prefix[0] == key[n]) {
                    c.update_ids(&key[n..], remove, out);
                }
            }
        }
    }
    /// Ids needed to find the first or the last entry, its value not included
    pub fn edge_ids(&self, last: bool, out: &mut Vec<Vec<u8>>) {
        out.extend(self.prefix_id.clone());
        if !last && self.value.is_some() {
            return;
        }
        if let Some(id) = &self.children_id {
            out.push(id.clone());
            if let Some(c) = if last { self.children.last() } else { self.children.first() } {
                c.edge_ids(last, out);
            }
        }
    }
    /// All ids below and including this node
    pub fn all_ids(&self, out: &mut Vec<Vec<u8>>) {
        out.extend(self.prefix_id.clone());
        out.extend(self.value_id.clone());
        out.extend(self.children_id.clone());
        for c in &self.children {
            c.all_ids(out);
        }
    }
    pub fn value_id_of(&self, key: &[u8]) -> Option<Vec<u8>> {
        let n = self.prefix.iter().zip(key).take_while(|(a, b)| a == b).count();
        if n < self.prefix.len() {
            return None;
        }
        if n == key.len() {
            return self.value_id.clone();
        }
        self.children.iter().find(|c| c.prefix[0] == key[n]).and_then(|c| c.value_id_of(&key[n..]))
    }
    /// the values of the prefixes of a key, itself included
    pub fn path_value_ids(&self, key: &[u8], out: &mut Vec<Vec<u8>>) {
        if let Some(rest) = key.strip_prefix(&self.prefix[..]) {
            out.extend(self.value_id.clone());
            if let Some(c) = rest.first().and_then(|b| self.children.iter().find(|c| c.prefix[0] == *b)) {
                c.path_value_ids(rest, out);
            }
        }
    }
    /// number of children blobs on the path of key
    pub fn depth_of(&self, key: &[u8]) -> usize {
        let mut v = vec![];
        self.search_ids(key, &mut v);
        v.len()
    }
}
