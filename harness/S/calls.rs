//@ property=K01
// The life of a call as the application is told it, whatever happens next.
use crate::plat::*;

fn any_stage(outgoing: bool, stage: u64) -> World {
    let mut w = World::new();
    if outgoing {
        w.outgoing(stage);
    } else {
        w.incoming(stage);
    }
    w.sane();
    w
}

fn over(mut w: World) {
    w.finish();
    sx::cover!(!w.app.ended(ID).is_empty());
}

/// From any stage of a call, any two things happen, at once or one after the other.
fn two_steps(outgoing: bool, stage: u64) {
    let mut w = any_stage(outgoing, stage);
    w.racing = sx::concb(sx::bool());
    w.free_step();
    if !w.racing {
        sx::idle();
        w.sane();
    }
    w.free_step();
    over(w);
}

/// From any stage of a call, any three things happen, one after the other.
fn three_steps(outgoing: bool, stage: u64) {
    let mut w = any_stage(outgoing, stage);
    for _ in 0..3 {
        w.free_step();
        sx::idle();
        w.sane();
    }
    over(w);
}

//@ harness bound="an_incoming_call_at_stage_1_of_4,any_2_of_23_events,at_once_or_in_turn"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_inc_1() {
    two_steps(false, 1)
}

//@ harness bound="an_incoming_call_at_stage_2_of_4,any_2_of_23_events,at_once_or_in_turn"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_inc_2() {
    two_steps(false, 2)
}

//@ harness bound="an_incoming_call_at_stage_3_of_4,any_2_of_23_events,at_once_or_in_turn"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_inc_3() {
    two_steps(false, 3)
}

//@ harness bound="an_incoming_call_at_stage_4_of_4,any_2_of_23_events,at_once_or_in_turn"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_inc_4() {
    two_steps(false, 4)
}

//@ harness bound="an_outgoing_call_at_stage_1_of_4,any_2_of_23_events,at_once_or_in_turn"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_out_1() {
    two_steps(true, 1)
}

//@ harness bound="an_outgoing_call_at_stage_2_of_4,any_2_of_23_events,at_once_or_in_turn"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_out_2() {
    two_steps(true, 2)
}

//@ harness bound="an_outgoing_call_at_stage_3_of_4,any_2_of_23_events,at_once_or_in_turn"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_out_3() {
    two_steps(true, 3)
}

//@ harness bound="an_outgoing_call_at_stage_4_of_4,any_2_of_23_events,at_once_or_in_turn"
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_out_4() {
    two_steps(true, 4)
}

//@ harness bound="an_incoming_call_at_stage_1_of_4,any_3_of_23_events_in_turn" tier=thorough secs=700
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_inc_1_more() {
    three_steps(false, 1)
}

//@ harness bound="an_incoming_call_at_stage_2_of_4,any_3_of_23_events_in_turn" tier=thorough secs=700
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_inc_2_more() {
    three_steps(false, 2)
}

//@ harness bound="an_incoming_call_at_stage_3_of_4,any_3_of_23_events_in_turn" tier=thorough secs=700
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_inc_3_more() {
    three_steps(false, 3)
}

//@ harness bound="an_incoming_call_at_stage_4_of_4,any_3_of_23_events_in_turn" tier=thorough secs=700
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_inc_4_more() {
    three_steps(false, 4)
}

//@ harness bound="an_outgoing_call_at_stage_1_of_4,any_3_of_23_events_in_turn" tier=thorough secs=700
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_out_1_more() {
    three_steps(true, 1)
}

//@ harness bound="an_outgoing_call_at_stage_2_of_4,any_3_of_23_events_in_turn" tier=thorough secs=700
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_out_2_more() {
    three_steps(true, 2)
}

//@ harness bound="an_outgoing_call_at_stage_3_of_4,any_3_of_23_events_in_turn" tier=thorough secs=700
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_out_3_more() {
    three_steps(true, 3)
}

//@ harness bound="an_outgoing_call_at_stage_4_of_4,any_3_of_23_events_in_turn" tier=thorough secs=700
#[unsafe(no_mangle)]
pub extern "C" fn hx_k_out_4_more() {
    three_steps(true, 4)
}
