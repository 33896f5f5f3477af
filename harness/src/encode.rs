//! Content packs written from the format alone, with freely chosen clusters.
use crate::decoder::crc;
use crate::model::Comp;
use std::io::Write;

pub fn compress(c: Comp, data: &[u8]) -> Vec<u8> {
    match c {
        Comp::None => data.to_vec(),
        Comp::Lz4(l) => {
            let mut e = lz4::EncoderBuilder::new().level(l).build(Vec::new()).unwrap();
            e.write_all(data).unwrap();
            let (v, r) = e.finish();
            r.unwrap();
            v
        }
        Comp::Lzma(l) => {
            let o = xz2::stream::LzmaOptions::new_preset(l).unwrap();
            let s = xz2::stream::Stream::new_lzma_encoder(&o).unwrap();
            let mut e = xz2::write::XzEncoder::new_stream(Vec::new(), s);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Comp::Zstd(l) => {
            let mut e = zstd::Encoder::new(Vec::new(), l).unwrap();
            e.include_contentsize(false).unwrap();
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
    }
}

fn block(out: &mut Vec<u8>, b: &[u8]) {
    out.extend_from_slice(b);
    out.extend_from_slice(&crc(b).to_be_bytes());
}

fn bytes_for(v: u64) -> usize {
    (1..8).find(|n| v < 1 << (8 * n)).unwrap_or(8)
}

/// Contents are numbered in the order of `contents`: (cluster, blob)
pub fn content_pack(uuid: &[u8; 16], clusters: &[(Comp, Vec<Vec<u8>>)], contents: &[(u32, u32)]) -> Vec<u8> {
    let mut out = vec![0u8; 128];
    let mut ptrs: Vec<u64> = vec![];
    for (comp, blobs) in clusters {
        let plain: Vec<u8> = blobs.concat();
        let raw = compress(*comp, &plain);
        out.extend_from_slice(&raw);
        let os = bytes_for((plain.len().max(raw.len())) as u64);
        let mut t = vec![comp.code(), os as u8];
        t.extend_from_slice(&(blobs.len() as u16).to_le_bytes());
        let mut put = |v: u64| t.extend_from_slice(&v.to_le_bytes()[..os]);
        put(raw.len() as u64);
        put(plain.len() as u64);
        let mut at = 0;
        for b in &blobs[..blobs.len() - 1] {
            at += b.len() as u64;
            put(at);
        }
        ptrs.push((out.len() as u64) << 16 | t.len() as u64);
        block(&mut out, &t);
    }
    let cluster_ptr = out.len() as u64;
    let b: Vec<u8> = ptrs.iter().flat_map(|p| p.to_le_bytes()).collect();
    block(&mut out, &b);
    let content_ptr = out.len() as u64;
    let b: Vec<u8> = contents.iter().flat_map(|(c, b)| (c << 12 | b).to_le_bytes()).collect();
    block(&mut out, &b);
    let check = out.len() as u64;
    let mut h = b"jbkc".to_vec();
    h.extend_from_slice(&crate::model::VENDOR);
    h.extend_from_slice(&[0, 2]);
    h.extend_from_slice(uuid);
    h.extend_from_slice(&[0; 6]);
    h.extend_from_slice(&(check + 37 + 64).to_le_bytes());
    h.extend_from_slice(&check.to_le_bytes());
    h.resize(60, 0);
    let mut v = vec![];
    block(&mut v, &h);
    out[..64].copy_from_slice(&v);
    let mut h2 = vec![];
    h2.extend_from_slice(&content_ptr.to_le_bytes());
    h2.extend_from_slice(&cluster_ptr.to_le_bytes());
    h2.extend_from_slice(&(contents.len() as u32).to_le_bytes());
    h2.extend_from_slice(&(clusters.len() as u32).to_le_bytes());
    h2.resize(60, 0);
    let mut w = vec![];
    block(&mut w, &h2);
    out[64..128].copy_from_slice(&w);
    let mut ck = vec![1u8];
    ck.extend_from_slice(blake3::hash(&out).as_bytes());
    block(&mut out, &ck);
    v.reverse();
    out.extend_from_slice(&v);
    out
}
