#[allow(dead_code)]
mod msg {
    /// a section: length, number, payload
    pub fn sect(n: u8, payload: &[u8]) -> Vec<u8> {
        let mut v = ((payload.len() + 5) as u32).to_be_bytes().to_vec();
        v.push(n);
        v.extend_from_slice(payload);
        v
    }
    pub fn sect1() -> Vec<u8> {
        sect(1, &[0, 34, 0, 0, 2, 1, 0, 0x07, 0xe0, 8, 22, 2, 0, 0, 0, 2])
    }
    /// Section 3 payload: regular latitude/longitude grid
    pub fn latlon(npoints: u32, ni: u32, nj: u32, la1: u32, lo1: u32, la2: u32, lo2: u32, mode: u8) -> Vec<u8> {
        let mut p = vec![0u8; 67];
        p[1..5].copy_from_slice(&npoints.to_be_bytes());
        p[9] = 6;
        p[25..29].copy_from_slice(&ni.to_be_bytes());
        p[29..33].copy_from_slice(&nj.to_be_bytes());
        p[41..45].copy_from_slice(&la1.to_be_bytes());
        p[45..49].copy_from_slice(&lo1.to_be_bytes());
        p[50..54].copy_from_slice(&la2.to_be_bytes());
        p[54..58].copy_from_slice(&lo2.to_be_bytes());
        p[66] = mode;
        p
    }
    /// Section 4 payload: template 4.0
    pub fn prod0(cat: u8, num: u8) -> Vec<u8> {
        let mut p = vec![0u8; 29];
        p[4] = cat;
        p[5] = num;
        p
    }
    /// Section 5 payload: template 5.0
    pub fn simple(n: u32, r: f32, e: u16, d: u16, nbit: u8) -> Vec<u8> {
        let mut p = n.to_be_bytes().to_vec();
        p.extend([0, 0]);
        p.extend(r.to_be_bytes());
        p.extend(e.to_be_bytes());
        p.extend(d.to_be_bytes());
        p.extend([nbit, 0]);
        p
    }
    pub fn message(discipline: u8, sections: &[Vec<u8>]) -> Vec<u8> {
        let body: Vec<u8> = sections.concat();
        let mut v = b"GRIB\0\0".to_vec();
        v.push(discipline);
        v.push(2);
        v.extend(((16 + body.len() + 4) as u64).to_be_bytes());
        v.extend(body);
        v.extend(b"7777");
        v
    }
    /// a whole message without a bit map
    pub fn whole(g: &[u8], p: &[u8], r: &[u8], data: &[u8]) -> Vec<u8> {
        message(0, &[sect1(), sect(3, g), sect(4, p), sect(5, r), sect(6, &[255]), sect(7, data)])
    }
    pub fn whole_bitmap(g: &[u8], p: &[u8], r: &[u8], map: &[u8], data: &[u8]) -> Vec<u8> {
        let mut m = vec![0u8];
        m.extend_from_slice(map);
        message(0, &[sect1(), sect(3, g), sect(4, p), sect(5, r), sect(6, &m), sect(7, data)])
    }
    pub fn open(b: Vec<u8>) -> Result<grib::Grib2<grib::SeekableGrib2Reader<std::io::Cursor<Vec<u8>>>>, grib::GribError> {
        grib::from_reader(std::io::Cursor::new(b))
    }
    pub fn values(b: Vec<u8>) -> Vec<f32> {
        let g = open(b).unwrap();
        let (_, s) = g.iter().next().unwrap();
        let d = grib::Grib2SubmessageDecoder::from(s).unwrap();
        let r = d.dispatch().unwrap().collect();
        r
    }
}
