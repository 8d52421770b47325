"""Which modules have to verify for a property, and which functions' obligations state it (primary)."""
BASE = ["vspec", "vnum", "vstdx", "vpath", "vlits"]
ENC = ["common::core::encode_argument"]
DEC = ["common::core::decode_argument"]
IDS = ["common::core::identifiers", "vident"]
FMT = ["common::core::msg::format", "common::core::msg::traits"]
MSG = ["common::core::msg", "vmsg"]
TYP = ["msg", "msg::core", "msg::posix"]
CID = ["client::core::client_id", "vcid"]
AUTH = ["server::auth", "vcid"]
SRV = ["vserver", "server::application", "server::dispatch", "server::handler", "server::connection", "server::reject"]
TOK = ["vtokio"]
HSK = ["server::core::handshake"]
BMH = ["server::core::msg"]
DSP = TOK + ["server::tokio::transmitter", "server::tokio::dispatch"] + SRV + TYP + FMT + ENC + MSG + IDS + DEC
S = "server::"
INT = r"[iu](8|16|32|64|128|size)"
E, D, I, M = "common::core::encode_argument::", "common::core::decode_argument::", "common::core::identifiers::", "common::core::msg::"
IDTYPES = "(ClientID|Identifier|ModuleIdentifier|ModuleVersion|ScopedIdentifier|MessageType)"

# property -> (modules, primary functions)
SCOPE = {
    "C01": (ENC, [E + "<" + INT + " as .*"]),
    "C02": (DEC, [D + "<" + INT + " as .*"]),
    "C03": (ENC + DEC, [E + r"<(T|\[u8\]|str|Path|bool|Option) as .*", D + r"<(bool|&\[u8\]|&str|&crate::vpath::Path|Option) as .*"]),
    "C04": (IDS + DEC, [I + IDTYPES + "::parse", I + "(parse_ident_or_module_ident|is_.*)", D + "<" + IDTYPES + " as .*"]),
    "C05": (IDS + DEC + ENC, [I + IDTYPES + "::.*", I + "<" + IDTYPES + " as .*", I + "parse_ident_or_module_ident", I + r"(<OwnedClientID as From>|OwnedClientID)::.*"]),
    "C06": (MSG + IDS + DEC, [M + "Cursor::.*", M + "isnum", M + "MessageIterator::(make|next_or_error|consume_and_validate)", M + "Message::(parse|parsed_type)", M + "<MessageIterator as Iterator>::next"]),
    "C07": (MSG + IDS + DEC, [M + "Cursor::.*", M + "isnum", M + "MessageIterator::(make|next_or_error|consume_and_validate)", M + "Message::parse", M + "ParseError::.*"]),
    "C08": (MSG + IDS + DEC, [M + "MessageIterator::.*", M + "<MessageIterator as .*", M + "Message::(parse|arguments)"]),
    "C09": (FMT + ENC, [M + "format::.*"]),
    "C10": (FMT + ENC + MSG + IDS + DEC, [M + "format::.*", M + "Message::(parse|arguments|parsed_type)", M + "MessageIterator::.*", M + "<MessageIterator as Iterator>::next"]),
    "C11": (TYP + FMT + ENC + MSG + IDS + DEC, ["msg::.*", M + "traits::.*"]),
    "C13": (AUTH + IDS, [S + "auth::ClientSelector::.*", S + "auth::cid2bytes", I + "ClientID::as_str"]),
    "C21": (AUTH + IDS, [S + r"auth::(ClientIdentity|ScreenIdentity|<ScreenIdentity as .*)::.*", I + r"(<OwnedClientID as From>|OwnedClientID)::.*"]),
    "C20": (["client::env"] + TYP + FMT + ENC + MSG + IDS + DEC, ["client::env::.*"]),
    "C14": (SRV + MSG + IDS + DEC, [S + r"connection::(Connection|ConnectionState)::.*"]),
    "C15": (SRV + HSK + TYP + FMT + ENC + MSG + IDS + DEC, [S + "core::handshake::.*", S + "connection::Connection::handle_incoming_msgio"]),
    "C16": (SRV + BMH + TYP + FMT + ENC + MSG + IDS + DEC, [S + "core::msg::.*", S + "reject::.*", S + "connection::Connection::handle_incoming_msgio"]),
    "C17": (SRV + BMH + AUTH + TYP + FMT + ENC + MSG + IDS + DEC, [S + "core::msg::<MessageHandler as Handler>::.*", S + "auth::ClientSelector::.*", S + "connection::Connection::handle_incoming_msgio"]),
    "C18": (DSP, [S + "tokio::transmitter::(SendBuffer|<SendBuffer as Default>)::.*", S + "tokio::dispatch::(Dispatch::enqueue_(message|stdin)|InnerDispatch::swap_send_buffer|TxConnector::.*)"]),
    "C22": (DSP, [S + "tokio::dispatch::(InnerDispatch::(create_connection_object|connection_mut|do_maintenance|run_broadcasts)|<ConnectionRefMut as Drop>::.*|Dispatch::enqueue_broadcast)"]),
    "C24": (DSP, [S + "tokio::dispatch::(InnerDispatch::(create_connection_object|connection_mut|do_maintenance_on_conn)|ConnectionRefMut::.*|<ConnectionRefMut as Drop>::.*)"]),
    "C26": (DSP + ["vjobs", "server::tokio::receiver"], [S + "tokio::(receiver::spawn_receiver|transmitter::spawn_transmitter)"]),
    "C28": (DSP + ["vlisten"], [S + "tokio::dispatch::Dispatch::(run_listener|vp_accept|shutdown)"]),
    "C19": (TOK + ["server::tokio::receiver"], [S + "tokio::receiver::<BytesMut as ReceiveBuffer>::.*"]),
    "C23": (AUTH + ["vrand"] + IDS, [S + r"auth::((Client|Screen)Credentials::.*|generate_secret)"]),
    "C27": (["vfmt"] + MSG + IDS + DEC, [I + "<.* as Display>::fmt", M + "<Message as Display>::fmt", M + "char_needs_escaping"]),
    "C12": (CID + IDS, ["client::core::client_id::.*"]),
}

# parts of the crate that a property has nothing to do with are not handed to the verifier
PARTS = {"server": ["C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C23", "C24", "C26", "C28"], "server::auth": ["C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C23", "C24", "C26", "C28"], "client::env": ["C20"]}
CORE = ["application", "connection", "dispatch", "handler", "notification", "reject", "core"]
for x in CORE: PARTS["server::" + x] = ["C14", "C15", "C16", "C17", "C18", "C19", "C22", "C24", "C26", "C28"]
PARTS["server::util"] = []
PARTS["server::auth::secrets"] = ["C23"]
PARTS["common::render"] = ["C27"]
PARTS["server::tokio"] = ["C18", "C19", "C22", "C24", "C26", "C28"]
PARTS["server::tokio::dispatch"] = ["C18", "C22", "C24", "C26", "C28"]
PARTS["server::tokio::jobs"] = ["C26", "C28"]
PARTS["server::tokio::listener"] = ["C28"]
def dropped_modules(prop):
    return [m for m, ps in PARTS.items() if prop not in ps]
