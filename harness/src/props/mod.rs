use crate::core::Prop;
mod p_bind;
mod p_board;
mod p_game;
mod p_misc;
mod p_obr;
mod p_solve;
pub mod p_video;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(p_board::props());
    v.extend(p_game::props());
    v.extend(p_solve::props());
    v.extend(p_video::props());
    v.extend(p_misc::props());
    v.extend(p_obr::props());
    v.extend(p_bind::props());
    v
}
