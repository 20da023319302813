//! Reference holiday rules of every calendar, written from the documented holiday lists in the
//! vocabulary of `year.rs`. The weekend is added by `Yr::is_business`.

use crate::tables;
use crate::year::*;
use calendar::Calendar;

pub struct Spec {
    pub name: &'static str,
    pub make: fn() -> Box<dyn Calendar>,
    pub model: fn(&mut Yr),
    /// Known finding that may be active for this calendar: (key, probe, what the probe means).
    pub known: Option<(&'static str, fn() -> bool)>,
}

macro_rules! specs {
    ($($name:literal => $make:expr, $model:expr);* $(;)?) => {
        vec![$(Spec { name: $name, make: || Box::new($make), model: $model, known: None }),*]
    };
}

use calendar::*;

// ------------------------------------------------------------------------------------ C13
pub fn c13() -> Vec<Spec> {
    use austria::*;
    use france::*;
    use germany::*;
    use italy::*;
    let mut v = specs![
        "TARGET" => target::Target, m_target;
        "Germany/Settlement" => Germany { market: Some(GermanyMarket::Settlement) }, m_germany_settlement;
        "Germany/FrankfurtStockExchange" => Germany { market: Some(GermanyMarket::FrankfurtStockExchange) }, m_frankfurt;
        "Germany/Xetra" => Germany { market: Some(GermanyMarket::Xetra) }, m_frankfurt;
        "Germany/Eurex" => Germany { market: Some(GermanyMarket::Eurex) }, m_eurex;
        "Germany/Euwax" => Germany { market: Some(GermanyMarket::Euwax) }, m_euwax;
        "Germany/default" => Germany { market: None }, m_frankfurt;
        "Germany/Default::default" => Germany::default(), m_frankfurt;
        "France/Exchange" => France { market: Some(FranceMarket::Exchange) }, m_france_exchange;
        "Italy/Settlement" => Italy { market: Some(ItalyMarket::Settlement) }, m_italy_settlement;
        "Italy/Exchange" => Italy { market: Some(ItalyMarket::Exchange) }, m_italy_exchange;
        "Italy/default" => Italy { market: None }, m_italy_settlement;
        "Austria/Settlement" => Austria { market: Some(AustriaMarket::Settlement) }, m_austria_settlement;
        "Austria/Exchange" => Austria { market: Some(AustriaMarket::Exchange) }, m_austria_exchange;
        "Austria/default" => Austria { market: None }, m_austria_settlement;
        "France/Settlement" => France { market: Some(FranceMarket::Settlement) }, m_france_settlement;
        "France/default" => France { market: None }, m_france_settlement;
    ];
    for s in v.iter_mut().filter(|s| s.name == "France/Settlement" || s.name == "France/default") {
        s.known = Some(("france-settlement-fixed-ascension-and-pentecost", france_pinned));
    }
    v
}

/// Known finding: Ascension and Whit Monday are closed on the fixed dates 10 and 21 May, as an
/// existing unit test for 2023 demands.
pub fn france_pinned() -> bool {
    let c = france::France { market: Some(france::FranceMarket::Settlement) };
    !c.is_business_day(chrono::NaiveDate::from_ymd_opt(2023, 5, 10).unwrap())
}

fn m_target(x: &mut Yr) {
    x.ds(&[(1, 1), (12, 25)]);
    if x.y >= 2000 {
        x.e(-3);
        x.e(0);
        x.ds(&[(5, 1), (12, 26)]);
    }
    if [1998, 1999, 2001].contains(&x.y) {
        x.d(12, 31);
    }
}
fn m_frankfurt(x: &mut Yr) {
    x.e(-3);
    x.e(0);
    x.ds(&[(1, 1), (5, 1), (12, 24), (12, 25), (12, 26)]);
}
fn m_germany_settlement(x: &mut Yr) {
    m_frankfurt(x);
    for k in [38, 49, 59] {
        x.e(k);
    }
    x.d(10, 3);
}
fn m_eurex(x: &mut Yr) {
    m_frankfurt(x);
    x.d(12, 31);
}
fn m_euwax(x: &mut Yr) {
    m_frankfurt(x);
    x.e(49);
}
fn m_france_settlement(x: &mut Yr) {
    x.e(0);
    x.ds(&[(1, 1), (5, 1), (5, 8), (7, 14), (8, 15), (11, 1), (11, 11), (12, 25)]);
    if france_pinned() {
        x.ds(&[(5, 10), (5, 21)]);
    } else {
        x.e(38);
        x.e(49);
    }
}
fn m_france_exchange(x: &mut Yr) {
    m_frankfurt(x);
    x.d(12, 31);
}
fn m_italy_settlement(x: &mut Yr) {
    x.e(0);
    x.ds(&[(1, 1), (1, 6), (4, 25), (5, 1), (8, 15), (11, 1), (12, 8), (12, 25), (12, 26)]);
    if x.y >= 2000 {
        x.d(6, 2);
    }
    x.one(1999, 12, 31);
}
fn m_italy_exchange(x: &mut Yr) {
    m_frankfurt(x);
    x.ds(&[(8, 15), (12, 31)]);
}
fn austria_national(x: &mut Yr) {
    if x.y >= 1967 {
        x.d(10, 26);
    } else if x.y >= 1919 && x.y <= 1934 {
        x.d(11, 12);
    }
}
fn m_austria_settlement(x: &mut Yr) {
    for k in [0, 38, 49, 59] {
        x.e(k);
    }
    x.ds(&[(1, 1), (1, 6), (5, 1), (8, 15), (11, 1), (12, 8), (12, 25), (12, 26)]);
    austria_national(x);
}
fn m_austria_exchange(x: &mut Yr) {
    m_frankfurt(x);
    x.e(49);
    x.d(12, 31);
    austria_national(x);
}

// ------------------------------------------------------------------------------------ C14
pub fn c14() -> Vec<Spec> {
    use unitedkingdom::*;
    specs![
        "UnitedKingdom/Settlement" => UnitedKingdom { market: Some(UnitedKingdomMarket::Settlement) }, m_uk;
        "UnitedKingdom/Exchange" => UnitedKingdom { market: Some(UnitedKingdomMarket::Exchange) }, m_uk;
        "UnitedKingdom/Metals" => UnitedKingdom { market: Some(UnitedKingdomMarket::Metals) }, m_uk;
        "UnitedKingdom/default" => UnitedKingdom { market: None }, m_uk;
        "Switzerland" => switzerland::Switzerland, m_switzerland;
        "Denmark" => denmark::Denmark, m_denmark;
        "Finland" => finland::Finland, m_finland;
        "Iceland" => iceland::Iceland, m_iceland;
        "Norway" => norway::Norway, m_norway;
        "Sweden" => sweden::Sweden, m_sweden;
    ]
}

fn m_uk(x: &mut Yr) {
    x.mon(1, 1);
    x.e(-3);
    x.e(0);
    match x.y {
        1995 | 2020 => x.d(5, 8),
        _ => x.nth(1, MON, 5),
    }
    match x.y {
        2002 => x.ds(&[(6, 3), (6, 4)]),
        2012 => x.ds(&[(6, 4), (6, 5)]),
        2022 => x.ds(&[(6, 2), (6, 3)]),
        _ => x.upto(5, 31, MON),
    }
    x.upto(8, 31, MON);
    x.christmas_boxing_moved();
    x.one(1999, 12, 31);
    x.one(2011, 4, 29);
    x.one(2022, 9, 19);
    x.one(2023, 5, 8);
}
fn m_switzerland(x: &mut Yr) {
    for k in [-3, 0, 38, 49] {
        x.e(k);
    }
    x.ds(&[(1, 1), (1, 2), (5, 1), (8, 1), (12, 25), (12, 26)]);
}
fn m_denmark(x: &mut Yr) {
    for k in [-4, -3, 0, 38, 49] {
        x.e(k);
    }
    if x.y < 2024 {
        x.e(25);
    }
    if x.y > 2008 {
        x.e(39);
    }
    x.ds(&[(1, 1), (6, 5), (12, 24), (12, 25), (12, 26), (12, 31)]);
}
fn m_finland(x: &mut Yr) {
    for k in [-3, 0, 38] {
        x.e(k);
    }
    x.ds(&[(1, 1), (1, 6), (5, 1), (12, 6), (12, 24), (12, 25), (12, 26)]);
    x.from(6, 19, FRI);
}
fn m_iceland(x: &mut Yr) {
    for k in [-4, -3, 0, 38, 49] {
        x.e(k);
    }
    x.ds(&[(1, 1), (5, 1), (6, 17), (12, 25), (12, 26)]);
    x.from(4, 19, THU);
    x.nth(1, MON, 8);
}
fn m_norway(x: &mut Yr) {
    for k in [-4, -3, 0, 38, 49] {
        x.e(k);
    }
    x.ds(&[(1, 1), (5, 1), (5, 17), (12, 25), (12, 26)]);
    if x.y > 2001 {
        x.d(12, 24);
    }
}
fn m_sweden(x: &mut Yr) {
    for k in [-3, 0, 38] {
        x.e(k);
    }
    if x.y <= 2004 {
        x.e(49);
    } else {
        x.d(6, 6);
    }
    x.ds(&[(1, 1), (1, 6), (5, 1), (12, 24), (12, 25), (12, 26), (12, 31)]);
    x.from(6, 19, FRI);
}

// ------------------------------------------------------------------------------------ C15
pub fn c15() -> Vec<Spec> {
    use russia::*;
    specs![
        "CzechRepublic" => czechrepublic::CzechRepublic, m_czech;
        "Hungary" => hungary::Hungary, m_hungary;
        "Poland" => poland::Poland, m_poland;
        "Romania" => romania::Romania, m_romania;
        "Slovakia" => slovakia::Slovakia, m_slovakia;
        "Ukraine" => ukraine::Ukraine, m_ukraine;
        "Russia/Settlement" => Russia { market: Some(RussiaMarket::Settlement) }, m_russia_settlement;
        "Russia/Exchange" => Russia { market: Some(RussiaMarket::Exchange) }, m_russia_exchange;
        "Russia/default" => Russia { market: None }, m_russia_settlement;
    ]
}

fn m_czech(x: &mut Yr) {
    x.e(0);
    if x.y > 2015 {
        x.e(-3);
    }
    x.ds(&[(1, 1), (5, 1), (5, 8), (7, 5), (7, 6), (9, 28), (10, 28), (11, 17)]);
    x.span(12, 24, 26);
    x.one(2004, 1, 2);
    x.one(2004, 12, 31);
}
fn m_hungary(x: &mut Yr) {
    x.e(0);
    x.e(49);
    if x.y > 2016 {
        x.e(-3);
    }
    x.ds(&[(1, 1), (3, 15), (5, 1), (8, 20), (10, 23), (11, 1)]);
    x.christmas_boxing();
}
fn m_poland(x: &mut Yr) {
    x.e(0);
    x.e(59);
    if x.y > 2010 {
        x.d(1, 6);
    }
    x.ds(&[(1, 1), (5, 1), (5, 3), (8, 15), (11, 1), (11, 11)]);
    x.christmas_boxing();
}
fn m_romania(x: &mut Yr) {
    x.o(0);
    x.o(49);
    if x.y > 2016 {
        x.d(6, 1);
    }
    x.ds(&[(1, 1), (1, 2), (1, 24), (5, 1), (8, 15), (11, 30), (12, 1)]);
    x.christmas_boxing();
}
fn m_slovakia(x: &mut Yr) {
    x.e(-3);
    x.e(0);
    x.ds(&[(1, 1), (1, 6), (5, 1), (5, 8), (7, 5), (8, 29), (9, 1), (9, 15), (11, 1), (11, 17)]);
    x.span(12, 24, 26);
    if x.y == 2004 || x.y == 2005 {
        x.span(12, 27, 31);
    }
}
fn m_ukraine(x: &mut Yr) {
    x.o(0);
    x.o(49);
    x.mon(1, 1);
    x.mon(1, 7);
    x.mon(3, 8);
    x.d(5, 1);
    x.d(5, 2);
    if x.wd(5, 3) == MON {
        x.d(5, 3);
    }
    x.mon(5, 9);
    x.ds(&[(6, 28), (8, 24)]);
    if x.y > 2014 {
        x.d(10, 14);
    }
}
fn m_russia_settlement(x: &mut Yr) {
    x.span(1, 1, if x.y < 2005 { 2 } else { 5 });
    x.one(2012, 1, 6);
    for (m, d) in [(1, 7), (2, 23), (3, 8), (5, 1), (5, 9), (6, 12), (11, 4)] {
        x.mon(m, d);
    }
    x.table(&[
        (2017, "0224 0508 1106"),
        (2018, "0309 0430 0502 0611 1231"),
        (2019, "0502 0503 0509"),
        (2020, "0330 0331 0401 0402 0403"),
    ]);
}
fn m_russia_exchange(x: &mut Yr) {
    x.ds(&[(2, 23), (5, 1), (6, 12), (12, 31)]);
    for (m, d) in [(3, 8), (5, 9), (11, 4)] {
        x.mon(m, d);
    }
    x.table(&[
        (2012, "0102 0309 0430 0611"),
        (2013, "0101 0102 0103 0104 0107"),
        (2014, "0101 0102 0103 0107"),
        (2015, "0101 0102 0107"),
        (2016, "0101 0107 0108 0502 0503 0613 1230"),
        (2017, "0102 0508"),
        (2018, "0101 0102 0108 1231"),
        (2019, "0101 0102 0107 1231"),
        (2020, "0101 0701 0102 0107 0224 0624"),
    ]);
    for (y, m, d) in [
        (2012, 3, 11), (2012, 4, 28), (2012, 5, 5), (2012, 5, 12), (2012, 6, 9), (2016, 2, 20),
        (2018, 4, 28), (2018, 6, 9), (2018, 12, 29),
    ] {
        if x.y == y {
            let i = x.doy(m, d);
            x.open[i] = true;
        }
    }
}

// ------------------------------------------------------------------------------------ C16
pub fn c16() -> Vec<Spec> {
    use unitedstates::*;
    specs![
        "UnitedStates/Settlement" => UnitedStates { market: Some(UnitedStatesMarket::Settlement) }, m_us_settlement;
        "UnitedStates/Libor" => UnitedStates { market: Some(UnitedStatesMarket::Libor) }, m_us_libor;
        "UnitedStates/NYSE" => UnitedStates { market: Some(UnitedStatesMarket::NYSE) }, m_us_nyse;
        "UnitedStates/GovernmentBond" => UnitedStates { market: Some(UnitedStatesMarket::GovernmentBond) }, m_us_gov;
        "UnitedStates/SOFR" => UnitedStates { market: Some(UnitedStatesMarket::SOFR) }, m_us_sofr;
        "UnitedStates/NERC" => UnitedStates { market: Some(UnitedStatesMarket::NERC) }, m_us_nerc;
        "UnitedStates/FederalReserve" => UnitedStates { market: Some(UnitedStatesMarket::FederalReserve) }, m_us_fed;
        "UnitedStates/default" => UnitedStates { market: None }, m_us_settlement;
        "UnitedStates/Default::default" => UnitedStates::default(), m_us_settlement;
    ]
}

fn us_mlk(x: &mut Yr, since: i32) {
    if x.y >= since {
        x.nth(3, MON, 1);
    }
}
fn us_washington(x: &mut Yr) {
    if x.y < 1971 {
        x.near(2, 22);
    } else {
        x.nth(3, MON, 2);
    }
}
fn us_memorial(x: &mut Yr) {
    if x.y < 1971 {
        x.near(5, 30);
    } else {
        x.upto(5, 31, MON);
    }
}
fn us_juneteenth(x: &mut Yr) {
    if x.y > 2021 {
        x.near(6, 19);
    }
}
fn us_columbus(x: &mut Yr) {
    if x.y > 1970 {
        x.nth(2, MON, 10);
    }
}
fn us_veterans(x: &mut Yr, saturday_to_friday: bool) {
    if (1971..1978).contains(&x.y) {
        x.nth(4, MON, 10);
    } else if saturday_to_friday {
        x.near(11, 11);
    } else {
        x.sun(11, 11);
    }
}
fn us_labor_thanksgiving(x: &mut Yr) {
    x.nth(1, MON, 9);
    x.nth(4, THU, 11);
}
fn m_us_settlement(x: &mut Yr) {
    x.sun(1, 1);
    if x.wd(12, 31) == FRI {
        x.d(12, 31); // next New Year's Day is a Saturday
    }
    us_mlk(x, 1983);
    us_washington(x);
    us_memorial(x);
    us_juneteenth(x);
    x.near(7, 4);
    us_columbus(x);
    us_veterans(x, true);
    us_labor_thanksgiving(x);
    x.near(12, 25);
}
fn m_us_libor(x: &mut Yr) {
    m_us_settlement(x);
    if x.y >= 2015 {
        // only 4 July itself: no substitute day
        for d in [3, 5] {
            let i = x.doy(7, d);
            x.closed[i] = false;
        }
    }
}
fn m_us_nyse(x: &mut Yr) {
    x.sun(1, 1);
    us_mlk(x, 1998);
    us_washington(x);
    x.e(-3);
    us_memorial(x);
    us_juneteenth(x);
    x.near(7, 4);
    us_labor_thanksgiving(x);
    x.near(12, 25);
    if x.y <= 1968 || [1972, 1976, 1980].contains(&x.y) {
        x.nth(1, TUE, 11);
    }
    x.table(&[
        (1954, "1224"),
        (1956, "1224"),
        (1958, "1226"),
        (1961, "0529"),
        (1963, "1125"),
        (1965, "1224"),
        (1968, "0409 0705"),
        (1969, "0210 0331 0721"),
        (1972, "1228"),
        (1973, "0125"),
        (1977, "0714"),
        (1985, "0927"),
        (1994, "0427"),
        (2001, "0911 0912 0913 0914"),
        (2004, "0611"),
        (2007, "0102"),
        (2012, "1029 1030"),
        (2018, "1205"),
    ]);
    if x.y == 1968 {
        // paperwork crisis: closed on Wednesdays from 12 June (a Wednesday is the first one)
        let mut i = x.doy(6, 12);
        while i < x.len {
            x.at(i);
            i += 7;
        }
    }
}
fn m_us_gov(x: &mut Yr) {
    x.sun(1, 1);
    us_mlk(x, 1983);
    us_washington(x);
    if ![2015, 2021, 2023].contains(&x.y) {
        x.e(-3);
    }
    us_memorial(x);
    us_juneteenth(x);
    x.near(7, 4);
    us_columbus(x);
    us_veterans(x, false);
    us_labor_thanksgiving(x);
    x.near(12, 25);
    x.table(&[(2004, "0611"), (2012, "1030"), (2018, "1205")]);
}
fn m_us_sofr(x: &mut Yr) {
    m_us_gov(x);
    x.one(2023, 4, 7);
}
fn m_us_nerc(x: &mut Yr) {
    x.sun(1, 1);
    us_memorial(x);
    x.sun(7, 4);
    us_labor_thanksgiving(x);
    x.sun(12, 25);
}
fn m_us_fed(x: &mut Yr) {
    x.sun(1, 1);
    us_mlk(x, 1983);
    us_washington(x);
    us_memorial(x);
    us_juneteenth(x);
    x.sun(7, 4);
    us_columbus(x);
    us_veterans(x, false);
    us_labor_thanksgiving(x);
    x.sun(12, 25);
}

// ------------------------------------------------------------------------------------ C17
pub fn c17() -> Vec<Spec> {
    use brazil::*;
    use canada::*;
    let mut v = specs![
        "Canada/Settlement" => Canada { market: Some(CanadaMarket::Settlement) }, m_canada;
        "Canada/TSX" => Canada { market: Some(CanadaMarket::TSX) }, m_tsx;
        "Canada/default" => Canada { market: None }, m_canada;
        "Mexico" => mexico::Mexico, m_mexico;
        "Brazil/Settlement" => Brazil { market: Some(BrazilMarket::Settlement) }, m_brazil;
        "Brazil/Exchange" => Brazil { market: Some(BrazilMarket::Exchange) }, m_bovespa;
        "Brazil/default" => Brazil { market: None }, m_brazil;
        "Chile" => chile::Chile, m_chile;
        "Argentina" => argentina::Argentina, m_argentina;
    ];
    v.last_mut().unwrap().known = Some(("argentina-christmas-day-open", argentina_pinned));
    v
}

/// Known finding: 25 December is open, as an existing unit test for 2023 demands.
pub fn argentina_pinned() -> bool {
    argentina::Argentina.is_business_day(chrono::NaiveDate::from_ymd_opt(2023, 12, 25).unwrap())
}

fn m_tsx(x: &mut Yr) {
    x.mon(1, 1);
    if x.y > 2007 {
        x.nth(3, MON, 2);
    }
    x.e(-3);
    x.upto(5, 24, MON);
    x.mon(7, 1);
    x.nth(1, MON, 8);
    x.nth(1, MON, 9);
    if x.y > 2020 {
        x.mon(9, 30);
    }
    x.nth(2, MON, 10);
    x.christmas_boxing_moved();
}
fn m_canada(x: &mut Yr) {
    m_tsx(x);
    x.mon(11, 11);
}
fn m_mexico(x: &mut Yr) {
    x.e(-4);
    x.e(-3);
    if x.y < 2006 {
        x.ds(&[(2, 5), (3, 21), (11, 20)]);
    } else {
        x.nth(1, MON, 2);
        x.nth(3, MON, 3);
        x.nth(3, MON, 11);
    }
    x.ds(&[(1, 1), (5, 1), (9, 16), (11, 2), (12, 12), (12, 25)]);
}
fn m_brazil(x: &mut Yr) {
    for k in [-49, -48, -3, 59] {
        x.e(k);
    }
    x.ds(&[(1, 1), (4, 21), (5, 1), (9, 7), (10, 12), (11, 2), (11, 15), (12, 25)]);
}
fn m_bovespa(x: &mut Yr) {
    m_brazil(x);
    x.ds(&[(1, 25), (7, 9), (12, 24)]);
    if x.y > 2006 {
        x.d(11, 20);
    }
    // last weekday of the year
    let mut i = x.len - 1;
    while x.wd_at(i) >= SAT {
        i -= 1;
    }
    x.at(i);
}
/// Chilean holidays that move to the Monday of the week (Tue-Thu) or to the next Monday (Fri).
fn chile_monday(x: &mut Yr, m: usize, d: usize) {
    let i = x.doy(m, d);
    match x.wd_at(i) {
        w @ (TUE | WED | THU) => x.at(i - w),
        FRI => x.at(i + 3),
        _ => x.at(i),
    }
}
fn m_chile(x: &mut Yr) {
    x.d(1, 1);
    if x.y > 2016 && x.wd(1, 2) == MON {
        x.d(1, 2);
    }
    x.e(-3);
    x.e(-2);
    x.ds(&[(5, 1), (5, 21), (7, 16), (8, 15), (9, 18), (9, 19), (11, 1), (12, 8), (12, 25)]);
    if x.y > 2020 {
        x.d(6, 21);
    }
    chile_monday(x, 6, 29);
    chile_monday(x, 10, 12);
    match x.wd(9, 17) {
        MON if x.y >= 2007 => x.d(9, 17),
        FRI if x.y >= 2017 => x.d(9, 17),
        _ => {}
    }
    if x.y >= 2007 && x.wd(9, 20) == FRI {
        x.d(9, 20);
    }
    if x.y >= 2008 {
        match x.wd(10, 31) {
            TUE => x.d(10, 27),
            WED => x.d(11, 2),
            _ => x.d(10, 31),
        }
    }
}
fn m_argentina(x: &mut Yr) {
    x.e(-4);
    x.e(-3);
    x.ds(&[(1, 1), (5, 1), (5, 25), (7, 9), (12, 8), (12, 24)]);
    if !argentina_pinned() {
        x.d(12, 25);
    }
    x.nth(3, MON, 6);
    x.nth(3, MON, 8);
    for d in [10, 11, 12, 15, 16] {
        if x.wd(10, d) == MON {
            x.d(10, d);
        }
    }
    x.d(12, 31);
    if x.wd(12, 31) == SAT {
        x.d(12, 30);
    }
}

// ------------------------------------------------------------------------------------ C18
pub fn c18() -> Vec<Spec> {
    use australia::*;
    specs![
        "Japan" => japan::Japan, m_japan;
        "Australia/Settlement" => Australia { market: Some(AustraliaMarket::Settlement) }, m_australia;
        "Australia/ASX" => Australia { market: Some(AustraliaMarket::ASX) }, m_asx;
        "Australia/default" => Australia { market: None }, m_australia;
        "NewZealand" => newzealand::NewZealand, m_nz;
    ]
}

/// Equinox day by the published approximation, in integer arithmetic (1e-6 days).
fn equinox(y: i32, base: [i64; 3]) -> usize {
    let y = i64::from(y);
    let (b, pivot) = match y {
        ..=1979 => (base[0], 1983),
        1980..=2099 => (base[1], 1980),
        _ => (base[2], 1980),
    };
    let leap = (y - pivot) / 4;
    ((b * 100 + 242_194 * (y - 1980) - leap * 1_000_000) / 1_000_000) as usize
}
pub fn m_japan(x: &mut Yr) {
    let y = x.y;
    let ve = equinox(y, [208_357, 208_431, 218_510]);
    let ae = equinox(y, [232_588, 232_488, 242_488]);
    x.span(1, 1, 3);
    x.d(12, 31);
    let olympic = y == 2020 || y == 2021;
    if y < 2000 {
        x.sun(1, 15);
        x.sun(10, 10);
    } else {
        x.nth(2, MON, 1);
        if !olympic {
            x.nth(2, MON, 10);
        }
    }
    x.sun(2, 11);
    if y >= 2020 {
        x.sun(2, 23);
    }
    if y >= 1989 && y <= 2018 {
        x.sun(12, 23);
    }
    x.sun(3, ve);
    x.sun(4, 29);
    x.span(5, 3, 5);
    if (3..=5).any(|d| x.wd(5, d) == SUN) {
        x.d(5, 6);
    }
    match y {
        1996..=2002 => x.sun(7, 20),
        2020 => x.ds(&[(7, 23), (7, 24), (8, 10)]),
        2021 => x.ds(&[(7, 22), (7, 23), (8, 9)]),
        2003.. => x.nth(3, MON, 7),
        _ => {}
    }
    if y >= 2016 && !olympic {
        x.sun(8, 11);
    }
    if y < 2003 {
        x.sun(9, 15);
    } else {
        x.nth(3, MON, 9);
        // a single day between Respect for the Aged Day and the equinox
        let e = x.doy(9, ae);
        if x.wd_at(e - 2) == MON && x.closed[e - 2] {
            x.at(e - 1);
        }
    }
    x.sun(9, ae);
    x.sun(11, 3);
    x.sun(11, 23);
    x.table(&[
        (1959, "0410"),
        (1989, "0224"),
        (1990, "1112"),
        (1993, "0609"),
        (2019, "0430 0501 0502 1022"),
    ]);
}
fn m_asx(x: &mut Yr) {
    x.mon(1, 1);
    x.mon(1, 26);
    x.e(-3);
    x.e(0);
    x.d(4, 25);
    x.nth(2, MON, 6);
    x.christmas_boxing_moved();
    x.one(2022, 9, 22);
}
fn m_australia(x: &mut Yr) {
    m_asx(x);
    x.nth(1, MON, 8);
    x.nth(1, MON, 10);
}
fn m_nz(x: &mut Yr) {
    for d in [1, 2] {
        x.d(1, d);
        if x.wd(1, d) >= SAT {
            x.d(1, d + 2);
        }
    }
    x.from(1, 19, MON);
    x.d(2, 6);
    x.d(4, 25);
    if x.y > 2013 {
        x.mon(2, 6);
        x.mon(4, 25);
    }
    x.e(-3);
    x.e(0);
    x.nth(1, MON, 6);
    x.nth(4, MON, 10);
    x.christmas_boxing_moved();
    x.table(tables::MATARIKI);
}

// ------------------------------------------------------------------------------------ C19
pub fn c19() -> Vec<Spec> {
    specs![
        "SouthAfrica" => southafrica::SouthAfrica, m_south_africa;
        "Botswana" => botswana::Botswana, m_botswana;
        "Israel" => israel::Israel, m_israel;
        "Turkey" => turkey::Turkey, m_turkey;
    ]
}

fn m_south_africa(x: &mut Yr) {
    x.e(-3);
    x.e(0);
    for (m, d) in [(1, 1), (3, 21), (4, 27), (5, 1), (6, 16), (8, 9), (9, 24), (12, 16), (12, 26)] {
        x.sun(m, d);
    }
    x.d(12, 25);
    x.table(&[(2004, "0414"), (2009, "0422"), (2016, "0803"), (2021, "1101"), (2022, "1227")]);
}
fn m_botswana(x: &mut Yr) {
    for k in [-3, 0, 38] {
        x.e(k);
    }
    for m in [1, 10] {
        x.d(m, 1);
        if x.wd(m, 1) == SUN {
            x.d(m, 2);
            x.d(m, 3);
        }
    }
    x.sun(5, 1);
    x.sun(7, 1);
    x.nth(3, MON, 7);
    x.sun(9, 30);
    x.d(12, 25);
    x.sun(12, 26);
}
fn m_israel(x: &mut Yr) {
    x.weekend = [FRI, SAT];
    x.table(tables::ISRAEL);
}
fn m_turkey(x: &mut Yr) {
    x.ds(&[(1, 1), (4, 23), (5, 1), (5, 19), (8, 30), (10, 29)]);
    if x.y > 2016 {
        x.d(7, 15);
    }
    x.table(tables::TURKEY);
}

// ------------------------------------------------------------------------------------ C20
pub fn c20() -> Vec<Spec> {
    specs![
        "China" => china::China, m_china;
        "HongKong" => hongkong::HongKong, m_hongkong;
        "Taiwan" => taiwan::Taiwan, m_taiwan;
        "SouthKorea" => southkorea::SouthKorea, m_korea;
    ]
}

fn m_china(x: &mut Yr) {
    x.d(1, 1);
    if x.y <= 2007 {
        x.span(5, 1, 7);
        x.span(10, 1, 7);
    }
    if x.y <= 2008 {
        x.ds(&[(4, 4), (6, 9), (9, 15)]);
    }
    x.table(tables::CHINA);
}
fn m_hongkong(x: &mut Yr) {
    x.e(-3);
    x.e(0);
    for m in [1, 5, 7, 10] {
        x.sun(m, 1);
    }
    x.christmas_boxing();
    x.table(tables::HONGKONG);
}
fn m_taiwan(x: &mut Yr) {
    x.ds(&[(1, 1), (2, 28), (5, 1), (10, 10)]);
    if ![2008, 2009, 2012, 2017].contains(&x.y) {
        x.d(4, 5);
    }
    x.table(tables::TAIWAN);
}
fn m_korea(x: &mut Yr) {
    x.ds(&[(1, 1), (5, 1), (6, 6)]);
    // holiday, and the first year in which it gets a substitute Monday
    for (m, d, since) in [(3, 1, 2022), (5, 5, 2014), (8, 15, 2021), (10, 3, 2021), (12, 25, 2023)] {
        x.d(m, d);
        if x.y >= since {
            x.mon(m, d);
        }
    }
    if x.y >= 2013 {
        x.d(10, 9);
    }
    if x.y >= 2021 {
        x.mon(10, 9);
    }
    if x.y <= 2005 {
        x.d(4, 5);
    }
    if x.y <= 2007 {
        x.d(7, 17);
    }
    x.table(tables::SOUTHKOREA);
}

// ------------------------------------------------------------------------------------ C21
pub fn c21() -> Vec<Spec> {
    specs![
        "India" => india::India, m_india;
        "Indonesia" => indonesia::Indonesia, m_indonesia;
        "Singapore" => singapore::Singapore, m_singapore;
        "Thailand" => thailand::Thailand, m_thailand;
    ]
}

fn m_india(x: &mut Yr) {
    x.e(-3);
    x.ds(&[(1, 26), (4, 14), (5, 1), (8, 15), (10, 2), (12, 25)]);
    x.table(tables::INDIA);
}
fn m_indonesia(x: &mut Yr) {
    x.e(-3);
    x.e(38);
    x.ds(&[(1, 1), (8, 17), (12, 25)]);
    x.table(tables::INDONESIA);
}
fn m_singapore(x: &mut Yr) {
    x.sun(1, 1);
    x.e(-3);
    x.ds(&[(5, 1), (12, 25)]);
    x.sun(8, 9);
    x.table(tables::SINGAPORE);
}
fn m_thailand(x: &mut Yr) {
    for (m, d, since) in [
        (1, 1, 0), (4, 6, 0), (5, 1, 0), (7, 28, 2017), (8, 12, 0), (10, 13, 2017), (12, 5, 0), (12, 10, 0),
    ] {
        if x.y >= since {
            x.mon(m, d);
        }
    }
    x.span(4, 13, 15);
    if x.wd(4, 16) == MON || x.wd(4, 16) == TUE {
        x.d(4, 16);
    }
    x.d(12, 31);
    x.table(tables::THAILAND);
}

pub fn weekends_only() -> Vec<Spec> {
    specs!["WeekendsOnly" => weekendsonly::WeekendsOnly, |_| {}]
}

pub fn all() -> Vec<Spec> {
    let mut v = weekends_only();
    for f in [c13, c14, c15, c16, c17, c18, c19, c20, c21] {
        v.extend(f());
    }
    v
}
