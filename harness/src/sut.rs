//! The code under test: building its connections, calling it, projecting its results.
use crate::out::{self, call, Obj, Out};
use crate::refm::{self, Got, Keys, Rx, Space};
use quic_sea::verif::{self, Connection, PacketNumberSpace, Rec, Version};

pub fn pns(s: Space) -> PacketNumberSpace {
    match s {
        Space::Initial => PacketNumberSpace::Initial,
        Space::Handshake => PacketNumberSpace::Handshake,
        Space::App => PacketNumberSpace::Application,
    }
}

/// Moves a space on, so that the number after last is next.  What exactly the counter of
/// the library counts (the last number, or the next one) is found out first.
pub fn set_last(c: &mut Connection, s: Space, last: u64) {
    static NEXT_IS: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    let off = *NEXT_IS.get_or_init(|| {
        let mut c = match Connection::new(false, Version::V1, verif::u160(&[1; 8]), 8) { Ok(c) => c, Err(_) => return 1 };
        c.verif_set_last_sent(PacketNumberSpace::Application, 1000);
        match call(|| c.get_next_pn(PacketNumberSpace::Application)) {
            Out::Ok((1000, _)) => 0,
            _ => 1,
        }
    });
    c.verif_set_last_sent(pns(s), last + 1 - off);
}

/// One end of a connection: enough to build the real one and to state what it should do
#[derive(Debug, Clone)]
pub struct End {
    pub server: bool,
    pub dcid: Vec<u8>,
    pub scid: Option<Vec<u8>>,
    /// traffic secrets (client's, server's) of the Handshake and application spaces
    pub secrets: [Option<(Vec<u8>, Vec<u8>)>; 2],
    pub received: [Option<u64>; 3],
    pub acked: [Option<u64>; 3],
    pub last_sent: [Option<u64>; 3],
}

impl End {
    pub fn new(server: bool, dcid: &[u8]) -> Self {
        End {
            server,
            dcid: dcid.to_vec(),
            scid: None,
            secrets: [None, None],
            received: [None; 3],
            acked: [None; 3],
            last_sent: [None; 3],
        }
    }
    pub fn other(&self) -> End {
        End {
            server: !self.server,
            dcid: self.dcid.clone(),
            scid: None,
            secrets: self.secrets.clone(),
            received: [None; 3],
            acked: [None; 3],
            last_sent: [None; 3],
        }
    }
    /// The real connection; None when the library cannot make it
    pub fn connection(&self) -> Option<Connection> {
        call(|| -> Result<Connection, ()> {
            let mut c = Connection::new(self.server, Version::V1, verif::u160(&self.dcid), self.dcid.len()).map_err(|_| ())?;
            if let Some(s) = &self.scid {
                c.set_scid(verif::u160(s), s.len());
            }
            for (i, space) in [Space::Handshake, Space::App].iter().enumerate() {
                if let Some((client, server)) = &self.secrets[i] {
                    let a = verif::secrets::from_secret(client).map_err(|_| ())?;
                    let b = verif::secrets::from_secret(server).map_err(|_| ())?;
                    if self.server {
                        c.verif_install(pns(*space), Some(b), Some(a));
                    } else {
                        c.verif_install(pns(*space), Some(a), Some(b));
                    }
                }
            }
            for s in refm::SPACES {
                c.verif_set_largest_received(pns(s), self.received[s.idx()]);
                c.verif_set_largest_acked(pns(s), self.acked[s.idx()]);
                if let Some(x) = self.last_sent[s.idx()] {
                    set_last(&mut c, s, x);
                }
            }
            Ok(c)
        })
        .ok()
    }
    /// Keys this end (or the other one) seals with, per space
    pub fn tx_keys(&self, own: bool) -> [Option<Keys>; 3] {
        let server = self.server == own;
        let pick = |x: &Option<(Vec<u8>, Vec<u8>)>| {
            x.as_ref().map(|(c, s)| refm::secret_keys(if server { s } else { c }))
        };
        [Some(refm::initial_keys(server, &self.dcid)), pick(&self.secrets[0]), pick(&self.secrets[1])]
    }
    pub fn rx(&self) -> Rx {
        Rx { keys: self.tx_keys(false), largest: self.received }
    }
}

pub fn keys_json(k: &Keys) -> String {
    Obj::raw_obj().b("key", &k.key).b("iv", &k.iv).b("hp", &k.hp).done().replacen("\"_\":0,", "", 1)
}

pub fn rx_json(c: &Rx) -> String {
    let keys = refm::SPACES
        .iter()
        .map(|s| {
            let k = match &c.keys[s.idx()] {
                Some(k) => format!("[{}]", keys_json(k)),
                None => "[]".to_string(),
            };
            format!("\"{}\":{}", s.name(), k)
        })
        .collect::<Vec<_>>()
        .join(",");
    let largest = refm::SPACES
        .iter()
        .map(|s| format!("\"{}\":{}", s.name(), out::opt_u64(c.largest[s.idx()])))
        .collect::<Vec<_>>()
        .join(",");
    format!("{{\"keys\":{{{}}},\"largest\":{{{}}}}}", keys, largest)
}

pub fn oracle_json(o: &refm::Oracle) -> String {
    let masks = out::list(o.masks.iter().map(|(hp, sample, mask)| {
        format!("{{\"hp\":{},\"sample\":{},\"mask\":{}}}", out::bytes(hp), out::bytes(sample), out::bytes(mask))
    }));
    let sealed = out::list(o.sealed.iter().map(|s| {
        format!(
            "{{\"key\":{},\"nonce\":{},\"aad\":{},\"ct\":{},\"pt\":{}}}",
            out::bytes(&s.key), out::bytes(&s.nonce), out::bytes(&s.aad), out::bytes(&s.ct), out::bytes(&s.pt)
        )
    }));
    format!("{{\"masks\":{},\"sealed\":{}}}", masks, sealed)
}

pub fn kdf_json(o: &refm::Kdf) -> String {
    let extract = out::list(o.extract.iter().map(|(a, b, c)| {
        format!("{{\"salt\":{},\"ikm\":{},\"prk\":{}}}", out::bytes(a), out::bytes(b), out::bytes(c))
    }));
    let expand = out::list(o.expand.iter().map(|(a, b, c)| {
        format!("{{\"prk\":{},\"info\":{},\"out\":{}}}", out::bytes(a), out::bytes(b), out::bytes(c))
    }));
    format!("{{\"extract\":{},\"expand\":{}}}", extract, expand)
}

// ------------------------------------------------------------- projections

pub fn got_of(v: &verif::packet::PacketView) -> Got {
    Got {
        kind: v.kind.to_string(),
        header: v.header.bytes.clone(),
        dlen: v.header.dcid_len as usize,
        dcid: v.header.dcid.to_vec(),
        slen: v.header.scid_len as usize,
        scid: v.header.scid.to_vec(),
        token: v.token.clone(),
        pn: v.packet_number,
        pnbytes: v.packet_number_bytes.clone(),
        frames: v.frames.clone(),
        versions: v.versions.clone(),
    }
}

/// What can be compared: ids of more than 20 bytes only by the header bytes
pub fn comparable(g: &Got) -> Got {
    let mut g = g.clone();
    if g.dlen > 20 { g.dcid = vec![0; 20]; }
    if g.slen > 20 { g.scid = vec![0; 20]; }
    g
}

pub fn same(a: &[Got], b: &[Got]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| comparable(x) == comparable(y))
}

pub fn got_json(g: &Got) -> String {
    let versions = out::list(g.versions.iter().map(|v| out::bytes(&v.to_be_bytes())));
    Obj::raw_obj()
        .s("kind", &g.kind)
        .b("header", &g.header)
        .n("dlen", g.dlen)
        .b("dcid", &g.dcid)
        .n("slen", g.slen)
        .b("scid", &g.scid)
        .b("token", &g.token)
        .u("pn", g.pn)
        .b("pnbytes", &g.pnbytes)
        .raw("frames", &out::recs(&g.frames))
        .raw("versions", &versions)
        .done()
        .replacen("\"_\":0,", "", 1)
}

pub fn gots_json(gs: &[Got]) -> String {
    out::list(gs.iter().map(got_json))
}

// -------------------------------------------------------------------- calls

pub fn decode(c: &Connection, bs: &[u8]) -> Out<Vec<Got>> {
    call(|| {
        verif::decode_packets(&mut verif::make_result_stream(bs), c)
            .map(|ps| ps.iter().map(|p| got_of(&verif::packet::view(p))).collect())
    })
}

pub fn parse(bs: &[u8]) -> Out<Vec<Rec>> {
    call(|| {
        verif::deserialize_frames(&mut verif::make_result_stream(bs))
            .map(|fs| fs.iter().map(verif::frame::view).collect())
    })
}

pub fn serialize(fs: &[Rec], end: bool) -> Out<Vec<u8>> {
    call(|| {
        let frames: Vec<_> = fs.iter().map(|f| verif::frame::build(&refm::buildable(f))).collect();
        verif::serialize_frames(&frames, end)
    })
}

pub fn type_name(debug: &str) -> &'static str {
    match debug {
        "VersionNegotiation" => "vn",
        "Initial" => "initial",
        "ZeroRtt" => "zerortt",
        "Handshake" => "handshake",
        "Retry" => "retry",
        "OneRtt" => "onertt",
        _ => "other",
    }
}

pub fn header(bs: &[u8]) -> Out<verif::packet::HeaderView> {
    call(|| verif::next_header_from_stream(&mut verif::make_result_stream(bs)).map(|h| verif::packet::header_view(&h)))
}
