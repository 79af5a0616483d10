//! Calendar arithmetic written from the definition of the Gregorian calendar (the code under
//! test uses jiff; this does not).

use serde_json::Value;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Dt {
    pub y: i64,
    pub m: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
}

pub fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn month_days(y: i64, m: i64) -> i64 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 => 28 + leap(y) as i64,
        _ => 31,
    }
}

impl Dt {
    pub fn new(y: i64, m: i64, d: i64, h: i64, mi: i64) -> Dt {
        Dt { y, m, d: d.min(month_days(y, m)), h, mi }
    }

    /// Days since 0000-03-01 of the proleptic calendar.
    pub fn days(&self) -> i64 {
        let mut n = 0;
        let y = self.y;
        // Whole years before this one.
        n += 365 * y + (y + 3) / 4 - (y + 99) / 100 + (y + 399) / 400;
        for m in 1..self.m {
            n += month_days(y, m);
        }
        n + self.d - 1
    }

    pub fn from_days(n: i64) -> Dt {
        let mut y = n / 366;
        loop {
            let next = Dt { y: y + 1, m: 1, d: 1, h: 0, mi: 0 }.days();
            if next > n {
                break;
            }
            y += 1;
        }
        let mut left = n - Dt { y, m: 1, d: 1, h: 0, mi: 0 }.days();
        let mut m = 1;
        while left >= month_days(y, m) {
            left -= month_days(y, m);
            m += 1;
        }
        Dt { y, m, d: left + 1, h: 0, mi: 0 }
    }

    pub fn minutes(&self) -> i64 {
        self.days() * 1440 + self.h * 60 + self.mi
    }

    pub fn minutes_since(&self, o: &Dt) -> i64 {
        self.minutes() - o.minutes()
    }

    pub fn add_minutes(&self, n: i64) -> Dt {
        let t = self.minutes() + n;
        let mut r = Dt::from_days(t.div_euclid(1440));
        let k = t.rem_euclid(1440);
        r.h = k / 60;
        r.mi = k % 60;
        r
    }

    /// Same day of a later month, or the last day of that month.
    pub fn add_months(&self, n: i64) -> Dt {
        let k = self.y * 12 + self.m - 1 + n;
        let (y, m) = (k.div_euclid(12), k.rem_euclid(12) + 1);
        Dt { y, m, d: self.d.min(month_days(y, m)), h: self.h, mi: self.mi }
    }

    pub fn date_string(&self) -> String {
        format!("{:04}-{:02}-{:02}", self.y, self.m, self.d)
    }

    pub fn iso(&self) -> String {
        format!("{:04}-{:02}-{:02}T{:02}:{:02}:00", self.y, self.m, self.d, self.h, self.mi)
    }

    pub fn parse(s: &str) -> Option<Dt> {
        let b: Vec<i64> = s.split(|c| "-T: ".contains(c)).map(|x| x.parse().ok()).collect::<Option<Vec<_>>>()?;
        Some(Dt {
            y: *b.first()?,
            m: *b.get(1)?,
            d: *b.get(2)?,
            h: b.get(3).copied().unwrap_or(0),
            mi: b.get(4).copied().unwrap_or(0),
        })
    }

    /// 1 = first of January.
    pub fn ordinal(&self) -> i64 {
        self.days() - Dt { y: self.y, m: 1, d: 1, h: 0, mi: 0 }.days() + 1
    }

    /// Position in a profile with one entry for every day of a leap year (0-based).
    pub fn leap_index(&self) -> i64 {
        let o = self.ordinal() - 1;
        if !leap(self.y) && o >= 59 { o + 1 } else { o }
    }
}

/// (start, length in minutes) of every step of a model's "time" object.
pub fn steps(time: &Value) -> Vec<(Dt, i64)> {
    let (Some(start), Some(end)) =
        (time["start"].as_str().and_then(Dt::parse), time["end"].as_str().and_then(Dt::parse))
    else {
        return vec![];
    };
    let t = &time["timestep"];
    let at: Box<dyn Fn(i64) -> Dt> = match t["type"].as_str().unwrap_or("") {
        "Days" => {
            let d = t["days"].as_i64().unwrap_or(1);
            Box::new(move |k| start.add_minutes(1440 * d * k))
        }
        "Hours" => {
            let h = t["hours"].as_i64().unwrap_or(1);
            Box::new(move |k| start.add_minutes(60 * h * k))
        }
        _ => {
            let f = t["freq"].as_str().unwrap_or("1d").to_string();
            let cut = f.find(|c: char| !c.is_ascii_digit()).unwrap_or(f.len());
            let n: i64 = f[..cut].parse().unwrap_or(1);
            let unit = f[cut..].to_string();
            Box::new(move |k| match unit.as_str() {
                "mo" => start.add_months(n * k),
                "w" => start.add_minutes(1440 * 7 * n * k),
                "d" => start.add_minutes(1440 * n * k),
                "h" => start.add_minutes(60 * n * k),
                "y" => start.add_months(12 * n * k),
                _ => start.add_minutes(1440 * k),
            })
        }
    };
    let mut out = vec![];
    for k in 0..20000 {
        let a = at(k);
        if a > end {
            break;
        }
        out.push((a, at(k + 1).minutes_since(&a)));
    }
    out
}
