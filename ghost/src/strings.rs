use crate::stub::*;
use crate::rt;
rt! {
    t_string String;
    t_bytebuf serde_bytes::ByteBuf;
    t_boxstr Box<str>;
}
