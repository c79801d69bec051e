# common head of the demo.py files (copied into each seed)
import csv, os, subprocess, sys, shutil
W = sys.argv[1]
BASE = {
 "agency": "agency_id,agency_name,agency_url,agency_timezone\na1,Ag,http://a.de,UTC\n",
 "routes": "route_id,agency_id,route_short_name,route_long_name,route_type\nr1,a1,1,L,3\n",
 "stops": "stop_id,stop_name,stop_lat,stop_lon\ns1,S1,48,7.8\ns2,S2,48.01,7.81\ns3,S3,48.02,7.82\n",
 "calendar": "service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date\nv1,1,1,1,1,1,1,1,20230604,20230610\n",
 "trips": "trip_id,route_id,service_id\nt1,r1,v1\n",
 "stop_times": "trip_id,stop_sequence,stop_id,arrival_time,departure_time\nt1,1,s1,08:00:00,08:00:00\nt1,2,s2,08:10:00,08:10:00\n",
}
def run(feed, *args, rc=None):
    """runs gtfstidy, returns the output tables {file: [rows]}"""
    i, o = os.path.join(W, "in"), os.path.join(W, "out")
    for d in (i, o):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(i)
    for f, t in feed.items():
        open(os.path.join(i, f + ".txt"), "w").write(t)
    p = subprocess.run([os.path.join(W, "gtfstidy"), *args, "-o", o, i], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True)
    if p.returncode != 0 or not os.path.isdir(o):
        print(p.stdout)
        fail("run failed")
    return {f[:-4]: list(csv.DictReader(open(os.path.join(o, f)))) for f in os.listdir(o) if f.endswith(".txt")}
def fail(m):
    print("FAIL:", m)
    sys.exit(1)
def dates(o):
    """the dates on which each trip of the output runs"""
    import datetime
    d = {}
    D = lambda s: datetime.date(int(s[:4]), int(s[4:6]), int(s[6:]))
    for c in o.get("calendar", []):
        l = d.setdefault(c["service_id"], set())
        x = D(c["start_date"])
        while x <= D(c["end_date"]):
            if c[["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"][x.weekday()]] == "1":
                l.add(x.strftime("%Y%m%d"))
            x += datetime.timedelta(1)
    for c in o.get("calendar_dates", []):
        (set.add if c["exception_type"] == "1" else set.discard)(d.setdefault(c["service_id"], set()), c["date"])
    return {t["trip_id"]: sorted(d.get(t["service_id"], ())) for t in o["trips"]}
def sec(t):
    h, m, s = t.split(":")
    return int(h) * 3600 + int(m) * 60 + int(s)
def calls(o):
    """the stop times of each trip of the output in order"""
    c = {}
    for s in sorted(o["stop_times"], key=lambda s: int(s["stop_sequence"])):
        c.setdefault(s["trip_id"], []).append(s)
    return c
CAL = "service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date\n"
def two(a, s1, t1, s2, t2, d1=None):
    return "%s,1,%s,%s,%s\n%s,2,%s,%s,%s\n" % (a, s1, t1, d1 or t1, a, s2, t2, t2)
STH = "trip_id,stop_sequence,stop_id,arrival_time,departure_time\n"
