//! Harnesses for symx. `harness <case-file>` replays a case natively.
mod adv;
mod append;
mod codec;
mod fault;
mod hist;
mod ics;
mod model;
mod rest;
mod s;
mod store;
mod t;
mod virt;

type Entry = (&'static str, extern "C-unwind" fn());

macro_rules! entries {
    ($($name:ident => $body:expr;)*) => {
        $(#[no_mangle] pub extern "C-unwind" fn $name() { $body })*
        static ENTRIES: &[Entry] = &[$((stringify!($name), $name)),*];
    };
}
const V32: u64 = 0xffff_fffe;
entries! {
    c01_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C01::default());
    c01_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C01::default());
    c01_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C01::default());
    c01_gap => t::gap(&mut hist::C01::default());
    c01_wide => t::wide(0, 0, &mut hist::C01::default());
    c01_wide1 => t::wide(1, 0, &mut hist::C01::default());
    c01_pair => t::pair(58, 5, true, &mut hist::C01::default());
    c01_hist => t::hist(2, false, &mut hist::C01::default());
    c01_histall => t::hist(2, true, &mut hist::C01::default());
    c02_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C02::default());
    c02_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C02::default());
    c02_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C02::default());
    c02_gap => t::gap(&mut hist::C02::default());
    c02_wide => t::wide(0, 0, &mut hist::C02::default());
    c02_wide1 => t::wide(1, 0, &mut hist::C02::default());
    c02_pair => t::pair(58, 5, true, &mut hist::C02::default());
    c02_hist => t::hist(2, false, &mut hist::C02::default());
    c02_histall => t::hist(2, true, &mut hist::C02::default());
    c03_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C03::default());
    c03_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C03::default());
    c03_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C03::default());
    c03_gap => t::gap(&mut hist::C03::default());
    c03_wide => t::wide(0, 0, &mut hist::C03::default());
    c03_wide1 => t::wide(1, 0, &mut hist::C03::default());
    c03_pair => t::pair(58, 5, true, &mut hist::C03::default());
    c03_hist => t::hist(2, false, &mut hist::C03::default());
    c03_histall => t::hist(2, true, &mut hist::C03::default());
    c05_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C05::default());
    c05_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C05::default());
    c05_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C05::default());
    c05_gap => t::gap(&mut hist::C05::default());
    c05_wide => t::wide(0, 0, &mut hist::C05::default());
    c05_wide1 => t::wide(1, 0, &mut hist::C05::default());
    c05_pair => t::pair(58, 5, true, &mut hist::C05::default());
    c05_hist => t::hist(2, false, &mut hist::C05::default());
    c05_histall => t::hist(2, true, &mut hist::C05::default());
    c07_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C07::default());
    c07_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C07::default());
    c07_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C07::default());
    c07_gap => t::gap(&mut hist::C07::default());
    c07_wide => t::wide(0, 0, &mut hist::C07::default());
    c07_wide1 => t::wide(1, 0, &mut hist::C07::default());
    c07_pair => t::pair(58, 5, true, &mut hist::C07::default());
    c07_hist => t::hist(2, false, &mut hist::C07::default());
    c07_histall => t::hist(2, true, &mut hist::C07::default());
    c08_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C08::default());
    c08_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C08::default());
    c08_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C08::default());
    c08_gap => t::gap(&mut hist::C08::default());
    c08_wide => t::wide(0, 0, &mut hist::C08::default());
    c08_wide1 => t::wide(1, 0, &mut hist::C08::default());
    c08_pair => t::pair(58, 5, false, &mut hist::C08::default());
    c08_hist => t::hist(2, false, &mut hist::C08::default());
    c08_histall => t::hist(2, true, &mut hist::C08::default());
    c09_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C09::default());
    c09_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C09::default());
    c09_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C09::default());
    c09_gap => t::gap(&mut hist::C09::default());
    c09_wide => t::wide(0, 0, &mut hist::C09::default());
    c09_wide1 => t::wide(1, 0, &mut hist::C09::default());
    c09_pair => t::pair(58, 5, true, &mut hist::C09::default());
    c09_hist => t::hist(2, false, &mut hist::C09::default());
    c09_histall => t::hist(2, true, &mut hist::C09::default());
    c10_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C10::default());
    c10_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C10::default());
    c10_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C10::default());
    c10_gap => t::gap(&mut hist::C10::default());
    c10_wide => t::wide(0, 0, &mut hist::C10::default());
    c10_wide1 => t::wide(1, 0, &mut hist::C10::default());
    c10_pair => t::pair(58, 5, false, &mut hist::C10::default());
    c10_hist => t::hist(2, false, &mut hist::C10::default());
    c10_histall => t::hist(2, true, &mut hist::C10::default());
    c11_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C11::default());
    c11_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C11::default());
    c11_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C11::default());
    c11_gap => t::gap(&mut hist::C11::default());
    c11_wide => t::wide(0, 0, &mut hist::C11::default());
    c11_wide1 => t::wide(1, 0, &mut hist::C11::default());
    c11_pair => t::pair(58, 5, true, &mut hist::C11::default());
    c11_hist => t::hist(2, false, &mut hist::C11::default());
    c11_histall => t::hist(2, true, &mut hist::C11::default());
    c12_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C12::default());
    c12_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C12::default());
    c12_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C12::default());
    c12_gap => t::gap(&mut hist::C12::default());
    c12_wide => t::wide(0, 0, &mut hist::C12::default());
    c12_wide1 => t::wide(1, 0, &mut hist::C12::default());
    c12_pair => t::pair(58, 5, true, &mut hist::C12::default());
    c12_hist => t::hist(2, false, &mut hist::C12::default());
    c12_histall => t::hist(2, true, &mut hist::C12::default());
    c13_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C13::default());
    c13_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C13::default());
    c13_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C13::default());
    c13_gap => t::gap(&mut hist::C13::default());
    c13_wide => t::wide(0, 0, &mut hist::C13::default());
    c13_wide1 => t::wide(1, 0, &mut hist::C13::default());
    c13_pair => t::pair(58, 5, true, &mut hist::C13::default());
    c13_hist => t::hist(2, false, &mut hist::C13::default());
    c13_histall => t::hist(2, true, &mut hist::C13::default());
    c15_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C15 { forge: true });
    c15_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C15::default());
    c15_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C15::default());
    c15_gap => t::gap(&mut hist::C15::default());
    c15_wide => t::wide(0, 0, &mut hist::C15::default());
    c15_wide1 => t::wide(1, 0, &mut hist::C15::default());
    c15_pair => t::pair(58, 5, true, &mut hist::C15::default());
    c15_hist => t::hist(2, false, &mut hist::C15::default());
    c15_histall => t::hist(2, true, &mut hist::C15::default());
    c21_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C21::default());
    c21_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C21::default());
    c21_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C21::default());
    c21_gap => t::gap(&mut hist::C21::default());
    c21_wide => t::wide(0, 0, &mut hist::C21::default());
    c21_wide1 => t::wide(1, 0, &mut hist::C21::default());
    c21_pair => t::pair(58, 5, false, &mut hist::C21::default());
    c21_hist => t::hist(2, false, &mut hist::C21::default());
    c21_histall => t::hist(2, true, &mut hist::C21::default());
    c22_sweep => t::sweep(t::EDGE, V32, false, &mut hist::C22::default());
    c22_sweep1 => t::sweep(t::EDGE, V32, true, &mut hist::C22::default());
    c22_sweepall => t::sweep(t::ALL, V32, false, &mut hist::C22::default());
    c22_gap => t::gap(&mut hist::C22::default());
    c22_wide => t::wide(0, 0, &mut hist::C22::default());
    c22_wide1 => t::wide(1, 0, &mut hist::C22::default());
    c22_pair => t::pair(58, 5, false, &mut hist::C22::default());
    c22_hist => t::hist(2, false, &mut hist::C22::default());
    c22_histall => t::hist(2, true, &mut hist::C22::default());
    c01_query => t::query(6, &mut hist::C01::default());
    c03_query => t::query(6, &mut hist::C03::default());
    c15_query => t::query(6, &mut hist::C15 { forge: true });
    c12_query => t::query(6, &mut hist::C12::default());
    c13_query => t::query(6, &mut hist::C13::default());
    c01_crowd => t::crowd(false, &mut hist::C01::default());
    c01_crowdall => t::crowd(true, &mut hist::C01::default());
    c01_big => t::big(&mut hist::C01::default());
    c01_genesis => t::genesis(&mut hist::C01::default());
    c01_apis => t::apis(&mut hist::C01::default());
    c01_mass => t::mass(&mut hist::C01::default());
    c01_long => t::long(&mut hist::C01::default());
    c02_crowd => t::crowd(false, &mut hist::C02::default());
    c02_crowdall => t::crowd(true, &mut hist::C02::default());
    c02_big => t::big(&mut hist::C02::default());
    c02_genesis => t::genesis(&mut hist::C02::default());
    c02_apis => t::apis(&mut hist::C02::default());
    c02_mass => t::mass(&mut hist::C02::default());
    c02_long => t::long(&mut hist::C02::default());
    c03_crowd => t::crowd(false, &mut hist::C03::default());
    c03_crowdall => t::crowd(true, &mut hist::C03::default());
    c03_big => t::big(&mut hist::C03::default());
    c03_genesis => t::genesis(&mut hist::C03::default());
    c03_apis => t::apis(&mut hist::C03::default());
    c03_apione => t::apis_of(&[1, 2], &mut hist::C03::default());
    c03_mass => t::mass(&mut hist::C03::default());
    c03_long => t::long(&mut hist::C03::default());
    c05_crowd => t::crowd(false, &mut hist::C05::default());
    c05_crowdall => t::crowd(true, &mut hist::C05::default());
    c05_big => t::big(&mut hist::C05::default());
    c05_genesis => t::genesis(&mut hist::C05::default());
    c05_apis => t::apis(&mut hist::C05::default());
    c05_mass => t::mass(&mut hist::C05::default());
    c05_long => t::long(&mut hist::C05::default());
    c07_crowd => t::crowd(false, &mut hist::C07::default());
    c07_crowdall => t::crowd(true, &mut hist::C07::default());
    c07_big => t::big(&mut hist::C07::default());
    c07_genesis => t::genesis(&mut hist::C07::default());
    c07_apis => t::apis(&mut hist::C07::default());
    c07_mass => t::mass(&mut hist::C07::default());
    c07_long => t::long(&mut hist::C07::default());
    c08_crowd => t::crowd(false, &mut hist::C08::default());
    c08_crowdall => t::crowd(true, &mut hist::C08::default());
    c08_big => t::big(&mut hist::C08::default());
    c08_genesis => t::genesis(&mut hist::C08::default());
    c08_apis => t::apis(&mut hist::C08::default());
    c08_mass => t::mass(&mut hist::C08::default());
    c08_long => t::long(&mut hist::C08::default());
    c09_crowd => t::crowd(false, &mut hist::C09::default());
    c09_crowdall => t::crowd(true, &mut hist::C09::default());
    c09_big => t::big(&mut hist::C09::default());
    c09_genesis => t::genesis(&mut hist::C09::default());
    c09_apis => t::apis(&mut hist::C09::default());
    c09_mass => t::mass(&mut hist::C09::default());
    c09_long => t::long(&mut hist::C09::default());
    c10_crowd => t::crowd(false, &mut hist::C10::default());
    c10_crowdall => t::crowd(true, &mut hist::C10::default());
    c10_big => t::big(&mut hist::C10::default());
    c10_genesis => t::genesis(&mut hist::C10::default());
    c10_apis => t::apis(&mut hist::C10::default());
    c10_mass => t::mass(&mut hist::C10::default());
    c10_long => t::long(&mut hist::C10::default());
    c11_crowd => t::crowd(false, &mut hist::C11::default());
    c11_crowdall => t::crowd(true, &mut hist::C11::default());
    c11_big => t::big(&mut hist::C11::default());
    c11_genesis => t::genesis(&mut hist::C11::default());
    c11_apis => t::apis(&mut hist::C11::default());
    c11_mass => t::mass(&mut hist::C11::default());
    c11_long => t::long(&mut hist::C11::default());
    c12_crowd => t::crowd(false, &mut hist::C12::default());
    c12_crowdall => t::crowd(true, &mut hist::C12::default());
    c12_big => t::big(&mut hist::C12::default());
    c12_genesis => t::genesis(&mut hist::C12::default());
    c12_apis => t::apis(&mut hist::C12::default());
    c12_apione => t::apis_of(&[1, 2], &mut hist::C12::default());
    c12_mass => t::mass(&mut hist::C12::default());
    c12_long => t::long(&mut hist::C12::default());
    c13_crowd => t::crowd(false, &mut hist::C13::default());
    c13_crowdall => t::crowd(true, &mut hist::C13::default());
    c13_big => t::big(&mut hist::C13::default());
    c13_genesis => t::genesis(&mut hist::C13::default());
    c13_apis => t::apis(&mut hist::C13::default());
    c13_apione => t::apis_of(&[1, 2], &mut hist::C13::default());
    c13_mass => t::mass(&mut hist::C13::default());
    c13_long => t::long(&mut hist::C13::default());
    c15_crowd => t::crowd(false, &mut hist::C15::default());
    c15_crowdall => t::crowd(true, &mut hist::C15::default());
    c15_big => t::big(&mut hist::C15::default());
    c15_genesis => t::genesis(&mut hist::C15::default());
    c15_apis => t::apis(&mut hist::C15::default());
    c15_apione => t::apis_of(&[1, 2], &mut hist::C15::default());
    c15_mass => t::mass(&mut hist::C15::default());
    c15_long => t::long(&mut hist::C15::default());
    c21_crowd => t::crowd(false, &mut hist::C21::default());
    c21_crowdall => t::crowd(true, &mut hist::C21::default());
    c21_big => t::big(&mut hist::C21::default());
    c21_apis => t::apis(&mut hist::C21::default());
    c21_mass => t::mass(&mut hist::C21::default());
    c21_long => t::long(&mut hist::C21::default());
    c22_crowd => t::crowd(false, &mut hist::C22::default());
    c22_crowdall => t::crowd(true, &mut hist::C22::default());
    c22_big => t::big(&mut hist::C22::default());
    c22_genesis => t::genesis(&mut hist::C22::default());
    c22_apis => t::apis(&mut hist::C22::default());
    c22_mass => t::mass(&mut hist::C22::default());
    c22_long => t::long(&mut hist::C22::default());
    c15_forge => adv::c15(2, true);
    c15_forge4 => adv::c15(4, false);
    c21_api => hist::c21_api(2);
    c21_api3 => hist::c21_api(3);
    c14_forge => ics::forge();
    c14_absent => ics::forge_absent(2);
    c14_absent3 => ics::forge_absent(3);
    c14_crowd => ics::crowd(false);
    c14_crowdall => ics::crowd(true);
    c16_crowd => rest::crowd(false, true);
    c18_crowd => rest::crowd(true, false);
    c18_crowdall => rest::crowd(true, true);
    c04_big => adv::c04_big();
    c06_big => adv::c06_big();
    c16_mass => rest::mass(false);
    c18_mass => rest::mass(true);
    c16_big => rest::big(false);
    c17_big => rest::big(true);
    c20_restore => rest::c20_restore();
    c24_mass => append::mass();
    c04_small => adv::c04(2, true);
    c04_shape => adv::c04_shape();
    c04_tree => adv::c04(4, false);
    c04_deep => adv::deep(false, false);
    c04_deepall => adv::deep(false, true);
    c06_small => adv::c06(1, 2, true);
    c06_tree => adv::c06(1, 4, false);
    c06_count => adv::c06_count();
    c06_two => adv::c06(2, 1, false);
    c06_deep => adv::deep(true, false);
    c06_deepall => adv::deep(true, true);
    c23_read => adv::c23(0, false);
    c23_readall => adv::c23(0, true);
    c23_update => adv::c23(1, false);
    c23_updateall => adv::c23(1, true);
    c23_range => adv::c23(2, true);
    c14_top => ics::c14(3, true);
    c14_sweep => ics::on(|c| t::sweep(t::EDGE, V32, false, c));
    c14_sweepall => ics::on(|c| t::sweep(t::ALL, V32, false, c));
    c14_gap => ics::on(|c| t::gap(c));
    c14_hist => ics::on(|c| t::hist(2, false, c));
    c14_histall => ics::on(|c| t::hist(2, true, c));
    c14_query => ics::on(|c| t::query(6, c));
    c14_big => ics::on(|c| t::big(c));
    c14_genesis => ics::on(|c| t::genesis(c));
    c14_apis => ics::on(|c| t::apis(c));
    c14_long => ics::on(|c| t::long(c));
    c14_mass => ics::on(|c| t::mass(c));
    c14_top4 => ics::c14(4, false);
    c14_chain => ics::chain(false);
    c14_deep => ics::chain(true);
    c16_main => rest::c16(4);
    c16_five => rest::c16(5);
    c16_empty => rest::c16_empty();
    c17_main => rest::c17(1, 2, false);
    c17_resumed => rest::c17(1, 1, true);
    c16_over => rest::over();
    c17_other => rest::other();
    c17_two => rest::c17(2, 1, false);
    c18_main => rest::c18(4, false);
    c18_twice => rest::c18(3, true);
    c18_twice4 => rest::c18(4, true);
    c18_five => rest::c18(5, false);
    c19_sweep => t::sweep(t::EDGE, V32, false, &mut codec::C19::default());
    c19_hist => t::hist(1, false, &mut codec::C19::default());
    c19_distinct => codec::distinct();
    c19_garbage => codec::garbage();
    c19_short => codec::short(7);
    c09_virtual => virt::counts();
    c12_virtual => virt::index();
    c18_virtual => virt::resume();
    c19_serde => codec::serde();
    c20_main => fault::c20(10);
    c24_one => append::c24(1, 2, false);
    c24_two => append::c24(2, 1, false);
    c24_more => append::c24(2, 2, false);
    c24_three => append::c24(1, 3, false);
    c24_mock => append::c24(1, 2, true);
    c24_mocktwo => append::c24(2, 1, true);
}

fn unhex(t: &str) -> Vec<u8> {
    (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// exit 0: ran to the end, all assertions true and observations as predicted; 1: an assertion
/// failed or a panic; 3: the run did not follow the predicted path.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        for (n, _) in ENTRIES {
            println!("{n}");
        }
        return;
    }
    let text = std::fs::read_to_string(&args[1]).expect("case file");
    let use_table = args.get(2).map(|x| x == "table").unwrap_or(false);
    let mut entry = String::new();
    let mut want: Vec<(u64, u64)> = vec![];
    let mut end = String::new();
    let mut rt = symrt::Rt::default();
    for l in text.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "entry" => entry = f[1].into(),
            "v" => rt.inputs.push_back(symrt::In::V(u64::from_str_radix(f[1], 16).unwrap())),
            "b" => rt.inputs.push_back(symrt::In::B(unhex(f.get(1).unwrap_or(&"")))),
            "o" => want.push((f[1].parse().unwrap(), u64::from_str_radix(f[2], 16).unwrap())),
            "h" if use_table => {
                rt.hashes.insert(unhex(f[1]), unhex(f[2]).try_into().unwrap());
            }
            "end" => end = f[1].into(),
            _ => {}
        }
    }
    let f = ENTRIES.iter().find(|e| e.0 == entry).expect("entry").1;
    symrt::RT.with(|r| *r.borrow_mut() = rt);
    let res = std::panic::catch_unwind(|| f());
    let mut code = 0;
    symrt::RT.with(|r| {
        let r = r.borrow();
        let mut panicked = None;
        if let Err(e) = &res {
            if e.downcast_ref::<symrt::StopToken>().is_none() {
                panicked = Some(
                    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into()),
                );
            }
        }
        if r.assumed_false > 0 || r.starved {
            println!("REPLAY diverged: assumption false or inputs exhausted");
            code = 3;
        }
        for t in &r.failed {
            println!("REPLAY assertion {t} failed");
            code = 1;
        }
        if let Some(m) = &panicked {
            println!("REPLAY panic: {m}");
            if !(r.expect_panic) {
                code = 1;
            }
        }
        if code == 0 && end != "violation" {
            if r.obs != want {
                let k = r.obs.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(r.obs.len().min(want.len()));
                println!("REPLAY observation {k} of {} differs: native {:x?}, predicted {:x?}", want.len(), r.obs.get(k), want.get(k));
                code = 3;
            }
            if (end == "panic") != panicked.is_some() {
                println!("REPLAY end differs: predicted {end}");
                code = 3;
            }
        }
        println!("REPLAY {} observations, reach {:x}, exit {code}", r.obs.len(), r.reach);
    });
    std::process::exit(code);
}
