A = "uxsim/analyzer.py"
M = [
("print-delay-total", A, '                print(f" average delay of trips:\\t {s.average_delay:.1f} s")', '                print(f" average delay of trips:\\t {s.total_delay/s.trip_all:.1f} s")', "C16"),
("csv-od-before", A, 's.link_to_pandas().to_csv(fname+"_link.csv", index=False)', 's.link_to_pandas().round(1).to_csv(fname+"_link.csv", index=False)', "C16"),
("avg-speed-wait", "uxsim/uxsim.py", "s.W.analyzer.average_speed += (0 - s.W.analyzer.average_speed)/s.W.analyzer.average_speed_count", "pass", "C16"),
]
