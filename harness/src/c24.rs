//! C24 publishers deliver each event exactly once, in order
use crate::spec::*;
use auburn::utils::publisher::*;

pub fn law_c24_ledger(a: i32, b: i32, c: i32) {
    let mut l = Ledger::<i32>::new();
    check(l.events.len() == 0, "a new ledger is empty");
    l.notify(a);
    l.notify(b);
    l.notify(c);
    check(l.events.len() == 3, "a ledger records each event once");
    check(l.events[0] == a && l.events[1] == b && l.events[2] == c, "a ledger records events in order");
    check(Ledger::<i32>::default().events.len() == 0, "a default ledger is empty");
}
pub fn law_c24_set(a: i32, b: i32, c: i32, d: i32) {
    let mut l = HashsetLedger::<i32>::new();
    check(l.events.is_empty(), "a new set ledger is empty");
    l.notify(a);
    l.notify(b);
    l.notify(c);
    check_eq(l.events.contains(&d), d == a || d == b || d == c, "a set ledger holds exactly the notified events");
    check_eq(l.events.len(), 1 + usize::from(b != a) + usize::from(c != a && c != b), "a set ledger holds an event notified twice once");
    check(HashsetLedger::<i32>::default().events.is_empty(), "a default set ledger is empty");
}
fn callbacks(mut p: CallbackPublisher<i32>, e: i32, f: i32, g: i32) {
    p.notify(e);
    check(emitted() == 0, "without subscribers nobody hears an event");
    p.attach(|x| emit(1, *x));
    check(emitted() == 0, "attaching a subscriber does not call it");
    p.notify(f);
    check(emitted() == 1, "a subscriber hears each event after it was attached once");
    p.attach(|x| emit(2, *x));
    p.notify(g);
    p.notify(e);
    check(emitted() == 5, "each subscriber hears each event once");
    check_eq(emitted_at(0), (1, f), "the first event goes to the only subscriber");
    check_eq(emitted_at(1), (1, g), "subscribers hear an event in the order they were attached");
    check_eq(emitted_at(2), (2, g), "subscribers hear an event in the order they were attached");
    check_eq(emitted_at(3), (1, e), "events arrive in order");
    check_eq(emitted_at(4), (2, e), "events arrive in order");
}
pub fn law_c24_callbacks(e: i32, f: i32, g: i32) {
    callbacks(CallbackPublisher::<i32>::new(), e, f, g);
}
pub fn law_c24_callbacks_default(e: i32, f: i32, g: i32) {
    callbacks(CallbackPublisher::<i32>::default(), e, f, g);
}
/// more events than any small buffer holds
pub fn law_c24_ledger_many(a: i32) {
    assume(a < 1000);
    assume(a > -1000);
    let mut l = Ledger::<i32>::new();
    let mut k = 0;
    while k < 40 {
        l.notify(a + k);
        k += 1;
    }
    check(l.events.len() == 40, "a ledger records each of many events once");
    let mut k = 0;
    while k < 40 {
        check(l.events[k as usize] == a + k, "a ledger records many events in order");
        k += 1;
    }
}
pub fn law_c24_set_many(a: i32, d: i32) {
    assume(a < 1000);
    assume(a > -1000);
    let mut l = HashsetLedger::<i32>::new();
    let mut k = 0;
    while k < 20 {
        l.notify(a + k);
        l.notify(a + k / 2);
        k += 1;
    }
    check_eq(l.events.len(), 20, "a set ledger holds each of many events once");
    check_eq(l.events.contains(&d), a <= d && d < a + 20, "a set ledger holds exactly the many notified events");
}
pub fn law_c24_callbacks_many(e: i32, f: i32) {
    let mut p = CallbackPublisher::<i32>::new();
    let mut k = 0;
    while k < 12 {
        p.attach(move |x| emit(k, *x));
        k += 1;
    }
    p.notify(e);
    p.notify(f);
    check(emitted() == 24, "each of many subscribers hears each event once");
    let mut k = 0;
    while k < 12 {
        check_eq(emitted_at(k), (k as i32, e), "many subscribers hear an event in the order they were attached");
        check_eq(emitted_at(12 + k), (k as i32, f), "many subscribers hear an event in the order they were attached");
        k += 1;
    }
}
/// more than an index of one byte holds
pub fn law_c24_ledger_thousands(a: i32) {
    assume(a < 100000);
    assume(a > -100000);
    loops(20000);
    let mut l = Ledger::<i32>::new();
    let mut k = 0;
    while k < 5000 {
        l.notify(a + k);
        k += 1;
    }
    check(l.events.len() == 5000, "a ledger records each of thousands of events once");
    let mut k = 0;
    while k < 5000 {
        check(l.events[k as usize] == a + k, "a ledger records thousands of events in order");
        k += 1;
    }
}
pub fn law_c24_callbacks_hundreds(e: i32) {
    loops(2000);
    let mut p = CallbackPublisher::<i32>::new();
    let mut k = 0;
    while k < 300 {
        p.attach(move |x| emit(k, *x));
        k += 1;
    }
    p.notify(e);
    check(emitted() == 300, "each of hundreds of subscribers hears the event once");
    let mut k = 0;
    while k < 300 {
        check_eq(emitted_at(k), (k as i32, e), "hundreds of subscribers hear an event in the order they were attached");
        k += 1;
    }
}
