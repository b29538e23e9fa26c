//! Encodings (format, mode, options) as a run-time choice.
use crate::dynx::*;
use musli::mode::{Binary, Text};
use musli::options::{self, ByteOrder, Float, Integer, Width};
use musli::reader::SliceReader;
use musli::{descriptive, json, packed, storage, wire, Decode, Encode, Options};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u8)]
pub enum Fmt {
    Packed,
    PackedVar,
    Storage,
    StorageFix,
    StorageBe,
    Wire,
    WireFix,
    WireText,
    Desc,
    DescFix,
    DescText,
    Json,
    JsonBin,
}
pub use Fmt::*;

pub const ALL: [Fmt; 13] = [
    Packed, PackedVar, Storage, StorageFix, StorageBe, Wire, WireFix, WireText, Desc, DescFix, DescText, Json, JsonBin,
];
impl Fmt {
    pub fn bit(self) -> u32 {
        1 << self as u32
    }
    pub fn is_json(self) -> bool {
        matches!(self, Json | JsonBin)
    }
    pub fn is_desc(self) -> bool {
        matches!(self, Desc | DescFix | DescText)
    }
    pub fn is_wire(self) -> bool {
        matches!(self, Wire | WireFix | WireText)
    }
    pub fn is_storage(self) -> bool {
        matches!(self, Storage | StorageFix | StorageBe)
    }
    pub fn is_packed(self) -> bool {
        matches!(self, Packed | PackedVar)
    }
    /// Encodings that carry enough to be skipped without a schema.
    pub fn tagged(self) -> bool {
        self.is_json() || self.is_desc() || self.is_wire()
    }
    pub fn text(self) -> bool {
        matches!(self, StorageBe | WireText | DescText | Json)
    }
}
pub const M_ALL: u32 = (1 << ALL.len()) - 1;
pub const M_PACKED: u32 = (1 << Packed as u32) | (1 << PackedVar as u32);
pub const M_JSON: u32 = (1 << Json as u32) | (1 << JsonBin as u32);
pub const M_STORAGE: u32 = (1 << Storage as u32) | (1 << StorageFix as u32) | (1 << StorageBe as u32);
pub const M_WIRE: u32 = (1 << Wire as u32) | (1 << WireFix as u32) | (1 << WireText as u32);
pub const M_DESC: u32 = (1 << Desc as u32) | (1 << DescFix as u32) | (1 << DescText as u32);
pub const M_TAGGED: u32 = M_WIRE | M_DESC | M_JSON;

pub const PV: Options = options::new().variable().byte_order(ByteOrder::Big).build();
pub const SF: Options = options::new().fixed().native_byte_order().build();
pub const SB: Options = options::new()
    .integer(Integer::Fixed)
    .float(Float::Fixed)
    .pointer(Width::U64)
    .byte_order(ByteOrder::Big)
    .build();
pub const WF: Options = options::new().fixed().byte_order(ByteOrder::Big).build();
pub const DF: Options = options::new()
    .integer(Integer::Fixed)
    .float(Float::Fixed)
    .pointer(Width::U64)
    .byte_order(ByteOrder::Big)
    .build();
pub const DT: Options = options::new().float(Float::Variable).build();

pub const E_PV: packed::Encoding<PV> = packed::Encoding::new().with_options::<PV>();
pub const E_SF: storage::Encoding<SF> = storage::Encoding::new().with_options::<SF>();
pub const E_SB: storage::Encoding<SB, Text> = storage::Encoding::new().with_options::<SB>().with_mode::<Text>();
pub const E_WF: wire::Encoding<WF> = wire::Encoding::new().with_options::<WF>();
pub const E_WT: wire::Encoding<{ wire::OPTIONS }, Text> = wire::Encoding::new().with_mode::<Text>();
pub const E_DF: descriptive::Encoding<DF> = descriptive::Encoding::new().with_options::<DF>();
pub const E_DT: descriptive::Encoding<DT, Text> = descriptive::Encoding::new().with_options::<DT>().with_mode::<Text>();
pub const E_JB: json::Encoding<Binary> = json::Encoding::new().with_mode::<Binary>();

pub fn enc<T>(f: Fmt, cx: Cx, w: &mut W<'_>, v: &T) -> Result<Option<usize>, ()>
where
    T: ?Sized + Encode<Binary> + Encode<Text>,
{
    match f {
        Packed => packed::Encoding::new().encode_with(cx, w, v),
        PackedVar => E_PV.encode_with(cx, w, v),
        Storage => storage::Encoding::new().encode_with(cx, w, v),
        StorageFix => E_SF.encode_with(cx, w, v),
        StorageBe => E_SB.encode_with(cx, w, v),
        Wire => wire::Encoding::new().encode_with(cx, w, v),
        WireFix => E_WF.encode_with(cx, w, v),
        WireText => E_WT.encode_with(cx, w, v),
        Desc => descriptive::Encoding::new().encode_with(cx, w, v),
        DescFix => E_DF.encode_with(cx, w, v),
        DescText => E_DT.encode_with(cx, w, v),
        Json => json::Encoding::new().encode_with(cx, w, v),
        JsonBin => E_JB.encode_with(cx, w, v),
    }
    .map_err(|_| ())
}

/// How the receiver reads: through which reader.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rd {
    /// `&mut &[u8]`; JSON: the parser that consumes exactly its message.
    Slice,
    /// `SliceReader` by reference; JSON: the parser over a whole slice.
    Ptr,
}

/// Decode one message from the front of `b`, leaving `b` at what follows
/// (untouched where the reader does not report it).
pub fn dec<'de, T>(f: Fmt, rd: Rd, cx: Cx, b: &mut &'de [u8]) -> Result<T, ()>
where
    T: Decode<'de, Binary, Da> + Decode<'de, Text, Da>,
{
    macro_rules! both {
        ($e:expr) => {
            match rd {
                Rd::Slice => $e.decode_with(cx, &mut *b),
                Rd::Ptr => {
                    let mut r = SliceReader::new(b);
                    let v = $e.decode_with(cx, &mut r);
                    *b = r.as_slice();
                    v
                }
            }
        };
    }
    macro_rules! slice {
        ($e:expr) => {
            $e.decode_with(cx, &mut *b)
        };
    }
    macro_rules! ptr {
        ($e:expr) => {{
            let mut r = SliceReader::new(b);
            let v = $e.decode_with(cx, &mut r);
            *b = r.as_slice();
            v
        }};
    }
    match f {
        Packed => both!(packed::Encoding::new()),
        PackedVar => slice!(E_PV),
        Storage => both!(storage::Encoding::new()),
        StorageFix => ptr!(E_SF),
        StorageBe => slice!(E_SB),
        Wire => both!(wire::Encoding::new()),
        WireFix => ptr!(E_WF),
        WireText => slice!(E_WT),
        Desc => both!(descriptive::Encoding::new()),
        DescFix => ptr!(E_DF),
        DescText => slice!(E_DT),
        Json => match rd {
            Rd::Slice => json::Encoding::new().decode_with(cx, &mut *b),
            Rd::Ptr => json::Encoding::new().from_slice_with(cx, b),
        },
        JsonBin => E_JB.decode_with(cx, &mut *b),
    }
    .map_err(|_| ())
}
/// Whether `dec` reports how much it consumed.
pub fn consumes(f: Fmt, rd: Rd) -> bool {
    !(f == Json && rd == Rd::Ptr)
}
