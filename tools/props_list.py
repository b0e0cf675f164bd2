prop("S01", "A job without concurrent_runs never has two runs at once",
     "The scheduler starts no run of a job which does not allow concurrent runs while an earlier run of that job, scheduled or triggered, has not ended, whatever else is queued, running or due. Two runs of such a job which are due at the same time are not started together, and a run which has not ended is never dropped from the running ones.",
     ["schedules", "histories", "configurations"], "every state of the queue and of the running runs, every order of jobs, every trigger and every time",
     NOTESTS + "A test samples a few interleavings of ends, triggers and due times; the guarantee is about all of them.",
     [DAEMON], [("check of the running runs before a start", "dsari/daemon.py Scheduler.process_scheduled_run"), ("main loop", "dsari/daemon.py Scheduler.loop")], ["os.fork", "the scheduler's running_runs"])
prop("S02", "A concurrency group never has more runs than its maximum",
     "A run of a job with concurrency groups is started only if at least one of its job's groups has fewer runs than its maximum, and takes a place in exactly one such group. It keeps this place until it has ended, which frees it.",
     ["schedules", "histories", "configurations"], "every number of groups, maxima, running runs, jobs sharing groups, and every order in which runs become due and end",
     NOTESTS + "The number of ways in which runs of different jobs fill and free groups is unbounded.",
     [DAEMON, INIT], [("choice of a free group", "dsari/daemon.py Scheduler.process_scheduled_run"), ("release at the end of a run", "dsari/daemon.py Scheduler.process_next_child")], ["os.fork", "CONCURRENCY_GROUP"],
     [("running_groups", "the runs in each group", "dsari/daemon.py")])
prop("S03", "Every started run is recorded as running, and once as ended when it ended",
     "A run is committed to the database as running, with its job, id, schedule time, start time and trigger, before its process is started. When its process has ended, and not before, the run is recorded exactly once as ended, with these and the time and exit code of its end, and is no longer recorded as running; the records of other runs do not change.",
     ["histories", "crash_points", "schedules"], "every run, every way it ends, every moment at which the scheduler may crash, every other run which is running",
     NOTESTS + "Crash points and ways for a process to end cannot be enumerated by running samples.",
     [DAEMON, DB], [("record before the fork", "dsari/daemon.py Scheduler.process_scheduled_run"), ("record of the end", "dsari/daemon.py Scheduler.process_next_child"), ("transactions", "dsari/database.py insert_running_run, insert_run")], ["SQL statements sent", "os.fork"])
prop("S04", "A job's schedule goes on: exactly one next run is queued",
     "Starting a scheduled run of a recurring schedule queues exactly one next run of the job, with a new id, for the next time of the job's schedule after now, in the job's own timezone; a schedule with no further time queues none and the scheduler goes on. After a start or a reload every configured job with a schedule has exactly one queued scheduled run with the current definition of the job, jobs without a schedule or no longer configured have none, and running runs are still known.",
     ["schedules", "histories", "configurations"], "every schedule, every state of the queue, every configuration before and after a reload",
     NOTESTS + "Losing or doubling a schedule shows only after particular histories of starts, triggers and reloads.",
     [DAEMON], [("queueing of the next run", "dsari/daemon.py Scheduler.process_scheduled_run"), ("reset of the jobs", "dsari/daemon.py Scheduler.reset_jobs")], ["scheduled_runs"])
prop("S05", "Due runs start, once and not early, and the scheduler wakes up for them",
     "A run is started only when its scheduled time has come; then a run which nothing blocks is started exactly once, with the current time as its start time, and leaves the queue. A blocked run stays queued and is tried again within a minute, without the scheduler spinning, and the scheduler's sleep always ends in time for the next queued run.",
     ["schedules", "inputs"], "every current time, every queued time, any number of queued runs",
     NOTESTS + "Times are unbounded; the boundary cases (due exactly now, due just after) need every ordering of times.",
     [DAEMON], [("main loop and sleep computation", "dsari/daemon.py Scheduler.loop")], ["select/sleep timeouts", "os.fork"])
prop("S06", "Shutdown starts nothing, signals as configured and waits for all runs",
     "After SIGTERM or SIGINT the scheduler starts no further run and consumes no trigger, and ends when, and only when, no run is running; runs which end meanwhile are recorded. If shutdown_kill_runs is set, every running run gets SIGTERM exactly once, and one still running after shutdown_kill_grace (which may be 0) gets SIGKILL exactly once; otherwise no run is signalled.",
     ["schedules", "histories", "configurations"], "every moment at which the signal arrives, every set of running and due runs, every order of their ends, repeated signals",
     NOTESTS + "Which runs end before or after each step of a shutdown is a matter of timing.",
     [DAEMON], [("shutdown handling", "dsari/daemon.py Scheduler.begin_shutdown, monitor_shutdown, loop")], ["os.kill", "os.fork"])
prop("S07", "max_execution: SIGTERM once, then SIGKILL once, to that run only",
     "A run which has run for longer than its job's max_execution (as it was when the run started) gets SIGTERM exactly once and, if it is still running max_execution_grace later, SIGKILL exactly once; the scheduler wakes up for both. No other run and no process which was already waited for is signalled, and the run stays known as running until it has ended.",
     ["schedules", "inputs", "histories"], "every start time, limit and grace time, every set of running runs, every moment of a run's end",
     NOTESTS + "Signals sent twice, to a reaped pid or to a neighbour show only at particular times.",
     [DAEMON], [("enforcement", "dsari/daemon.py Scheduler.process_run_execution_time")], ["os.kill"])
prop("S08", "Signals take effect between steps only, and always while waiting",
     "A documented signal (SIGTERM, SIGINT, SIGHUP, SIGUSR1, SIGQUIT) is never handled in the middle of the scheduler's processing of runs, triggers or records, only where it waits. Wherever it waits it can be handled.",
     ["schedules", "fault_sequences"], "every instruction at which a signal can arrive",
     NOTESTS + "A signal can arrive between any two instructions; tests hit few of them.",
     [DAEMON], [("signal mask around waits", "dsari/daemon.py signal_sleep, HANDLED_SIGNALS")], ["signal.pthread_sigmask"])
prop("S09", "The child process of a run never acts as the scheduler",
     "After the fork, the process of a run ends in the execution of the command or, if anything fails on the way, in the end of this process: it never returns to the scheduler's loop, starts nothing, waits for nothing, kills nothing, and writes nothing to the scheduler's database. The scheduler itself never does what its child should.",
     ["fault_sequences", "programs", "crash_points"], "every failure of every step between fork and exec (missing command, directory, permissions, descriptors)",
     NOTESTS + "Failures between fork and exec have to be injected at each step.",
     [DAEMON, DB], [("child side of the fork", "dsari/daemon.py Scheduler.run_child_executor")], ["os.fork", "os.execvp", "os._exit"])
prop("S10", "A run gets exactly the documented environment",
     "The environment of a run contains the variables documented in doc/environment.md with their documented values (ids, times, job and group names, previous, previous good and previous bad runs only if there are such, Jenkins variables if configured), and the environments configured globally, for the job and by the trigger, in this order of increasing precedence, over the generated ones. Nothing of the scheduler's own environment but PATH is passed on, and the working directory is PWD if set, or else the run's directory.",
     ["configurations", "inputs", "histories"], "every combination of configured environments, triggers, previous runs, groups and the presence of a password entry",
     NOTESTS + "The combinations of sources for each variable are too many to sample.",
     [DAEMON], [("environment of a run", "dsari/daemon.py Scheduler.run_child_executor")], ["os.execvpe, os.execve"])
prop("S11", "A run's process is set up as documented before its command starts",
     "Every run executes the configured command line (with job name and run id appended if configured to), in its own process group and with no signal blocked, with standard input from /dev/null and standard output and error appended to output.txt in the run's directory, which exists before.",
     ["configurations", "programs"], "every command line, configuration and state of the file system",
     NOTESTS + "No test starts a run.",
     [DAEMON], [("child side of the fork", "dsari/daemon.py Scheduler.run_child_executor")], ["os.execvp*", "os.dup2", "os.setpgid"])
prop("S12", "The recorded exit code is the process's: its status, or 128 + signal",
     "The exit code recorded for a run is the exit status of its process if it exited, and 128 plus the number of the signal if a signal ended it, whether or not it dumped core.",
     ["inputs"], "every wait status",
     NOTESTS + "All 65536 wait statuses matter, tests would sample some.",
     [DAEMON], [("conversion of the wait status", "dsari/daemon.py Scheduler.process_next_child")], ["exit_code in the database"])
prop("S14", "Return data is recorded with the run, and can never cost the record",
     "If a run which ended left return_data.json or return_data.yaml in its directory, the data read from it is recorded as return_data with the run. If the file cannot be read, parsed or recorded, or there is none, the run is recorded as ended without it and the scheduler goes on.",
     ["inputs", "fault_sequences"], "every content of the file and every failure of reading it",
     NOTESTS + "Contents of files written by arbitrary commands are unbounded.",
     [DAEMON], [("return data", "dsari/daemon.py Scheduler.process_next_child")], ["run_data in the database"])
prop("T01", "A trigger file leads to exactly one run and is consumed before it starts",
     "Each readable trigger file of a configured job leads to exactly one run carrying its data (unless the scheduler is shut down or reloaded before it starts), and is removed once, before that run can start; one which cannot be removed leads to no run. A file whose content is not valid is removed once, too, and leads to no run. A file which cannot be read is left alone, and no other file is removed.",
     ["fault_sequences", "crash_points", "histories"], "every trigger file of every job, every failure of reading and removing",
     NOTESTS + "Failures between reading, removing and starting have to be injected at each step.",
     [DAEMON], [("triggers", "dsari/daemon.py Scheduler.process_triggers / process_trigger_job")], ["os.remove", "scheduled_runs"])
prop("T02", "No content of a trigger file can stop the scheduler or start a broken run",
     "Whatever a trigger file contains, the scheduler goes on: content which is not valid (not a mapping, an environment which is not a mapping of names to strings or numbers, a schedule time or timezone which cannot be understood, data which cannot be recorded) leads to no run, and queued runs are not affected. A valid environment reaches the run, as strings.",
     ["inputs", "fault_sequences"], "every content of a trigger file: types, missing keys, out of range values, syntax errors",
     NOTESTS + "Trigger files are untrusted input of any type and depth.",
     [DAEMON], [("validation of triggers", "dsari/daemon.py Scheduler.process_trigger_job")], ["scheduled_runs"])
prop("T03", "A trigger's schedule_time is understood as documented",
     "A trigger without schedule_time leads to a run at once, one with a number to a run at that epoch time, and one with a string to a run at that time: with its own offset if it has one, or else in the trigger's schedule_timezone, or else in the default timezone. A run for the future waits until then.",
     ["inputs"], "every schedule_time and schedule_timezone",
     NOTESTS + "Times and timezones are unbounded; only helper functions are sampled.",
     [DAEMON, UTILS], [("time of a triggered run", "dsari/daemon.py Scheduler.process_trigger_job"), ("localization", "dsari/utils.py dtlocalize")], ["schedule_time of the run"])
prop("T04", "A trigger replaces a job's queued run only as documented",
     "The trigger of a job without concurrent_runs replaces its queued run, and after the triggered run has started the job's schedule continues as before; a job with concurrent_runs keeps its queued run beside the triggered one. Queued runs of other jobs and running runs are not affected, and a triggered run never starts a second schedule.",
     ["histories", "schedules", "configurations"], "every state of the queue and running runs, every trigger",
     NOTESTS + "Depends on the history of queued and triggered runs.",
     [DAEMON], [("queueing of a triggered run", "dsari/daemon.py Scheduler.process_trigger_job")], ["scheduled_runs"])
prop("T05", "Triggers and signals are noticed in time",
     "While it is not shutting down, the scheduler looks for a trigger file of every configured job at least once a minute, whatever is queued, running or blocked, and at once (within a second or two) after a SIGUSR1 that comes while it waits. A reload takes effect as soon: a new job's run which is due before the scheduler would otherwise have woken up is started in time. After SIGTERM the scheduler ends as soon as no run is running.",
     ["schedules", "histories"], "every state of the queue and of the running runs, every moment at which a signal comes",
     NOTESTS + "How long a sleep lasts depends on everything queued and running, and on when a signal comes.",
     [DAEMON], [("length of a sleep", "dsari/daemon.py Scheduler.process_wakeups, loop, process_next_child, wait_deadline"), ("signals", "dsari/daemon.py Scheduler.handle_signal")], ["os.path.exists and open of trigger files", "os.fork"], technique="abstract interpretation of the scheduler's loop on a clock which only its sleeps and waits advance")
prop("D01", "Data never becomes part of an SQL statement",
     "Every SQL statement sent to a database consists of constant text and the placeholders of that database's library; job names, run ids and all other data are passed as parameters, exactly one for each placeholder.",
     ["inputs", "configurations"], "every job name, run id, trigger data and run data; each SQL backend and operation",
     "Only the configuration loader, hash and time helpers are tested, no statement is sent; no test can cover all data.",
     [DB], [("statements", "dsari/database.py _modify_statement")], ["cursor.execute"], technique=SQLAI)
prop("D02", "Each backend's statements fit the schema it creates",
     "Each SQL backend creates the tables of ended and running runs if they do not exist, commits them, and leaves existing ones as they are. Every statement uses only tables and columns of this schema, gives all columns which must not be null, and the columns can hold their values (times with fractions, exit codes up to 192, names, told apart by case, and identifiers, JSON of any size).",
     ["configurations", "programs"], "every backend and operation",
     "MySQL and PostgreSQL need servers; no test uses any backend.",
     [DB], [("schemas", "dsari/database.py populate_schema")], ["cursor.execute"], technique=SQLAI)
prop("D03", "Previous runs are the job's last ended, last good and last bad ones",
     "The previous run, previous good run and previous bad run given to a job are the runs recorded for this job which ended last among all, among those with exit code 0, and among those with another exit code, with their recorded data; each is absent exactly if there is no such run.",
     ["histories"], "every history of recorded runs, in each backend",
     "No test uses a backend; histories are unbounded.",
     [DB], [("queries", "dsari/database.py get_previous_runs")], ["PREVIOUS_* variables"], technique=SQLAI)
prop("D04", "A run's end is one transaction; records of other runs are untouched",
     "In the SQL backends a run's end is recorded in one transaction, so that whenever the scheduler crashes the run is recorded either as running or as ended; in MongoDB it is recorded as ended before it stops being recorded as running. What is recorded is committed, recording or ending one run changes no other run's record, and clearing the running runs empties their table and no other.",
     ["crash_points", "histories"], "every point between two database operations, every set of recorded runs, each backend",
     "Crash points are not reachable by tests of the public functions; no test uses a backend.",
     [DB], [("transactions", "dsari/database.py insert_run, insert_running_run, clear_runs_running")], ["commits"], technique=SQLAI)
prop("D05", "A recorded run is read back as it was recorded",
     "A run read back from any backend, as a listed or a previous one, has the job, id, times, exit code, trigger type, trigger data and run data with which it was recorded.",
     ["inputs", "histories"], "every run, each backend, each way to record and read",
     "No test uses a backend.",
     [DB], [("records", "dsari/database.py _build_insert, _build_run_from_result")], ["dsari-info", "PREVIOUS_*"], technique=SQLAI,
     note="Representation by the databases' own column types (rounding of floats) is outside the analysis; that times keep their instants is D08. ")
prop("D06", "Listing runs gives exactly the recorded runs asked for",
     "Listing ended or running runs, all of them or those of given jobs or ids, gives each recorded run of that kind which matches exactly once and no other, each with its job's current configuration, or its job's name if that job is no longer configured.",
     ["histories", "inputs"], "every set of recorded runs, job names and ids, each backend",
     "No test uses a backend.",
     [DB], [("selection", "dsari/database.py get_runs")], ["dsari-info", "dsari-render", "dsari-prometheus-exporter"], technique=SQLAI)
prop("D07", "The configured database is the one used",
     "Each database type in the configuration selects its own backend with its configured connection; without a type, or without a file, SQLite is used with dsari.sqlite3 in the data directory.",
     ["configurations"], "every database configuration",
     "Other backends need servers; tests check the configuration only.",
     [DB], [("choice of the backend", "dsari/database.py get_database")], ["connect calls"])
CTESTS = "The tests load a few dozen sample configurations; "
CLOADER = [("populate", "dsari/config.py ConfigLoader.populate_object, build_base, build_job")]
prop("D08", "The times of recorded runs keep their instants",
     "The times of a run read back from any backend, as a listed or a previous one, have a time zone offset and are the instants recorded, whatever zones the scheduler, the job and the database use.",
     ["inputs", "configurations"], "every run, every zone of the scheduler and of the job, each backend, each way to record and read",
     "No test uses a backend; tests run in one time zone.",
     [DB], [("conversions", "dsari/database.py _build_insert, _build_run_from_result")], ["dsari-info", "dsari-render", "PREVIOUS_*"], technique=SQLAI,
     note="Fractions lost to a column's resolution and the hour repeated when daylight saving ends are outside the analysis. ")
prop("C01", "Names are accepted exactly if they are safe; others are refused",
     "The name of a job, a job group or a concurrency group, wherever it is configured or referenced (jobs, job_groups, their job_names, concurrency_groups, and the concurrency_groups of jobs and job groups), is accepted exactly if it is a string of 1 to 64 characters out of letters a-z and A-Z, digits 0-9, space and - _ + . : @, and is not \".\" or \"..\". A configuration with any other name (or one which is no string) is refused with a ConfigError, so that no name can lead out of the data directory.",
     ["inputs", "configurations"], "every string and value as a name, in every position of the configuration",
     CTESTS + "the accepted names are a language, decided here by automata over all strings.",
     [CONF], [("name check", "dsari/config.py ConfigLoader.is_valid_name")] + CLOADER, ["ConfigError", "Config.jobs, Config.concurrency_groups"], technique="abstract interpretation; equality of regular languages by automata")
prop("C02", "Options are accepted exactly with values of their documented types",
     "Every option of the main configuration, of jobs, job groups and concurrency groups is accepted exactly with values of its documented types (a boolean is no number; null stands for the default). A command is a non-empty list of strings, or a string which splits into at least one word as a shell would; an environment maps strings to strings or numbers. A job without a command and a job group without job_names or command are refused. Refusal is always a ConfigError.",
     ["inputs", "configurations"], "every type of value for every option at every level",
     CTESTS + "options, levels and types multiply.",
     [CONF, UTILS], CLOADER + [("environment check", "dsari/utils.py validate_environment_dict")], ["ConfigError"])
prop("C03", "Accepted options take effect exactly where configured; others are default",
     "An accepted option has exactly its configured value (seconds become durations, numbers in environments strings, a command string is split as a shell would), for the job or group it is configured for and for no other; every other option has its documented default.",
     ["inputs", "configurations"], "every value of every option, with any other jobs and groups",
     CTESTS + "that a value reaches its place unchanged, and no other, holds for all values or not at all.",
     [CONF, INIT], CLOADER + [("defaults", "dsari/config.py Config, dsari/__init__.py Job, ConcurrencyGroup")], ["Config, Job and ConcurrencyGroup attributes"])
prop("C04", "Schedules and timezones are tried when loaded; bad ones are refused",
     "When a configuration is loaded, the schedule of every job is tried and every schedule_timezone looked up. A schedule or timezone which cannot be understood makes the whole configuration refused with a ConfigError; any other is accepted, also a recurrence which is over.",
     ["inputs", "configurations"], "every schedule and timezone, every exception the schedule and timezone libraries raise for them, any other jobs",
     CTESTS + "the ways in which a library refuses a schedule are sampled by very few of them.",
     [CONF, UTILS], [("schedule validation", "dsari/config.py ConfigLoader.build_job"), ("timezones", "dsari/utils.py get_timezone")], ["ConfigError", "Job.schedule, Job.schedule_timezone"])
prop("C05", "Configuration files are merged recursively, in the documented order",
     "The configuration is the recursive merge of dsari.yaml, dsari.json, *.yaml in config.d and *.json in config.d, each of the latter in the order of their names however the directory lists them; later values win, and mappings are merged at every depth. Other files are ignored (and hidden ones may be); config_d configures another directory, and a missing one is no error. A file which cannot be parsed makes the configuration refused with a ConfigError. A file of the main directory which cannot be read is not ignored; files of config.d which the user may not read are left out.",
     ["inputs", "configurations", "fault_sequences"], "every subset of the files, every order of listing, every failure to read or parse one",
     CTESTS + "the order depends on what os.listdir returns, and merges on which files have what in common.",
     [CONF, UTILS], [("loading of the directory", "dsari/config.py ConfigLoader.load_dir"), ("merge", "dsari/utils.py dict_merge")], ["the loaded configuration", "ConfigError"])
prop("C06", "dsari-info config dump prints a configuration which loads back the same",
     "What dsari-info config dump prints, as JSON or YAML, can be serialized for every valid configuration, and loading it yields the same configuration: the same jobs, options, schedules, timezones, groups and maxima. With --raw it is the configuration as it was read.",
     ["configurations", "inputs"], "every combination of options and their values",
     "No test dumps a configuration; which options survive depends on each combination of options.",
     ["dsari/info.py", CONF], [("dump", "dsari/info.py Info.cmd_dump_config")], ["standard output of dsari-info config dump"])
prop("C07", "Job groups are their jobs; concurrency groups are shared by name",
     "A job group is the same as its jobs configured one by one, each with its job_group: every job of job_names has the options of the group and a command of its own. Jobs which name the same concurrency group share one group with its configured maximum; a group which is only named has a maximum of 1, and a job's groups are exactly those it names.",
     ["configurations"], "every number of groups and jobs, shared and unshared",
     CTESTS + "sharing shows only between jobs of a configuration, in any combination.",
     [CONF], [("job groups", "dsari/config.py ConfigLoader.build_job, dsari/config.py ConfigLoader.build_jobs"), ("concurrency groups", "dsari/config.py ConfigLoader.build_job_concurrency_groups")], ["Config.jobs, Config.concurrency_groups"])
prop("C08", "A configuration of a wrong structure is refused with a ConfigError",
     "A configuration file which is not a mapping, jobs, job_groups or concurrency_groups which are not mappings of mappings, job_names or the concurrency_groups of a job or job group which are not lists of names, or a config_d which is not a string make the configuration refused with a ConfigError. An empty file, and jobs, job_groups, concurrency_groups or a concurrency group without content (null), are the same as none: the rest of the configuration takes effect.",
     ["configurations", "inputs"], "every type at every position of the structure, with and without other files",
     CTESTS + "each position fails differently, and files hide each other when merged.",
     [CONF], [("structure", "dsari/config.py ConfigLoader.build_concurrency_groups, build_jobs, build_job, build_job_concurrency_groups"), ("files", "dsari/config.py ConfigLoader.load_dir")], ["ConfigError", "Config.jobs, Config.concurrency_groups"])
prop("C09", "Default directories: the first place which has a configuration, and its data",
     "Without -c, every program reads the configuration in $DSARI_HOME/etc if DSARI_HOME is set, otherwise in the first of ~/.dsari/etc, /usr/local/etc/dsari and /etc/dsari which contains dsari.json, dsari.yaml or config.d, otherwise in ~/.dsari/etc; and in no other place. The data directory, unless data_dir configures it, is the one which belongs to that place: $DSARI_HOME/var, ~/.dsari/var, /usr/local/lib/dsari or /var/lib/dsari. All programs agree, so that reports are about the runs of the scheduler.",
     ["configurations", "inputs"], "DSARI_HOME set or not, every combination of configurations in the three places, other files in them, each of the four programs",
     CTESTS + "The places are absolute and are looked at when the program is imported, so a test sees those of its own machine only.",
     [CONF, DAEMON, "dsari/info.py", "dsari/prometheus_exporter.py", "dsari/render.py"], [("default directories", "dsari/config.py dir_has_config, DEFAULT_CONFIG_DIR, DEFAULT_DATA_DIR, get_config"), ("option -c", "main functions of dsari/daemon.py, info.py, prometheus_exporter.py, render.py")], ["the directory which is read", "Config.data_dir"])
prop("C10", "Libraries are optional: without one, the rest works",
     "Without PyYAML, croniter, python-dateutil, termcolor, IPython, Jinja2, lzma or the library of a database which is not configured, or several of them, every program starts (dsari-render needs Jinja2) and does whatever does not need the library: jobs whose schedule cannot be computed (cron without croniter, RRULE without python-dateutil) remain and run by manual triggers, all others keep their schedules; a YAML configuration is refused with a ConfigError, and one which is no JSON still is; YAML triggers stay where they are, JSON ones are used; a trigger's time as a text is refused without python-dateutil, other times work; dsari-info prints without colors, refuses to print YAML, shows plain and .gz output, and its shell is Python's.",
     ["configurations", "inputs"], "every optional library, and all of them at once, missing; cron, RRULE and no schedule; JSON and YAML configurations, triggers, formats",
     CTESTS + "The tests run where the libraries are installed, so no test sees the program without them.",
     [CONF, DAEMON, "dsari/utils.py", "dsari/info.py", "dsari/prometheus_exporter.py", "dsari/render.py"], [("optional imports", "dsari/utils.py, dsari/daemon.py module level; dsari/info.py Color, parse_args, Info.cmd_shell; dsari/database.py"), ("missing schedules", "dsari/config.py ConfigLoader.build_job; dsari/utils.py get_next_schedule_time")], ["Config.jobs", "trigger files", "what dsari-info prints"])
prop("S13", "A failed reload changes nothing; a failed start does nothing",
     "If the configuration cannot be loaded after SIGHUP, whatever the reason, the scheduler goes on with the current configuration, jobs, queue, running runs and groups, all unchanged, and does nothing else; a later SIGHUP with a valid configuration has its full effect. A SIGHUP during shutdown queues nothing. If the configuration cannot be loaded at the start, the scheduler ends before it touches the database or any process.",
     ["fault_sequences", "histories", "configurations"], "every exception, at every point of loading; every state of queue, running runs and groups",
     NOTESTS + "A broken configuration has to meet a scheduler in a certain state, and fail at a certain point.",
     [DAEMON, CONF], [("reload", "dsari/daemon.py Scheduler.signal_handler, load_config, reset_jobs")], ["Scheduler.config, jobs, scheduled_runs, running_runs, running_groups"])
prop("S15", "Stale running records are cleared once, at the start; ended ones never",
     "Runs which are still recorded as running when the scheduler starts (left by one which crashed) are no longer recorded as running, committed, before this scheduler starts its first run. Neither a reload nor any other signal removes the record of a running run, and the record of an ended run is never changed or removed.",
     ["crash_points", "histories"], "every set of records an earlier scheduler left, every signal, every statement of the program",
     NOTESTS + "It takes a crash and a restart to see it.",
     [DAEMON, DB], [("startup", "dsari/daemon.py Scheduler.__init__"), ("clearing", "dsari/database.py clear_runs_running")], ["the tables runs and runs_running"])
prop("S16", "SIGQUIT and SIGUSR1 change nothing",
     "SIGQUIT reports the running and queued runs and SIGUSR1 wakes the scheduler up at once; neither changes the jobs, the queue, the running runs, groups or records, or fails, whatever is running or queued.",
     ["histories", "schedules"], "every state of queue, running runs and groups, also during shutdown",
     NOTESTS + "The state in which the signal arrives varies.",
     [DAEMON], [("status", "dsari/daemon.py Scheduler.sigquit_status, signal_handler")], ["Scheduler fields", "os.kill"])
prop("S17", "A reload leaves the runs in progress as they were started",
     "When the configuration is reloaded while a run is in progress, whether its job has changed, is still there or not, the run is not signalled, stays known as running, keeps its place in its concurrency group as long as that is configured, and keeps the max_execution and max_execution_grace with which it was started; signals it got are not sent again. The changes take effect for later runs.",
     ["histories", "configurations"], "every change of a job's options, every point in the life of a run",
     NOTESTS + "It takes a run, a changed configuration and a signal, and then the passing of time.",
     [DAEMON], [("reload", "dsari/daemon.py Scheduler.reset_jobs"), ("limits", "dsari/daemon.py Scheduler.process_run_execution_time")], ["os.kill", "Scheduler.running_runs, running_groups"])
prop("H01", "Hashed items stay in their range, depend on the name only, and spread",
     "Each H item of a schedule (H, H(a-b), H/s, H(a-b)/s) is replaced by a number which lies in the item's range (for H/s and H(a-b)/s in the first step of it) at the item's position, is a function of the job's whole name only, the same each time, and can be any number of the range; R items likewise, but random. The rest of the item, other items and their order stay as they are, however many spaces are between them, and @midnight, @hourly, @daily, @weekly, @monthly, @yearly and @annually stand for their documented schedules.",
     ["inputs", "configurations"], "every job name; every form of item with ranges and steps over all of each position's range, in all positions and combined with other items",
     "The tests sample one name; that a number is in its range for all names is a bound over all hashes.",
     ["dsari/croniter_hash.py"], [("expansion", "dsari/croniter_hash.py croniter_hash._hash_expand, _hash_expand_item, _hash_do")], ["the expression given to croniter"], technique="abstract interpretation with intervals and term dependence")
prop("H02", "The next time is that of the schedule after now, plus a hashed sub-second",
     "The next time of a cron schedule is what the cron library gives for it after the given time (or now), with a hashed second if it has five items; that of an RRULE is what dateutil gives strictly after the given time, for a recurrence which begins within the day before it, at a time of day which is a function of the job's name. A function of the name, from 0 to 1 s, is added; there is no next time exactly if the recurrence is over; times keep their timezone, also with an UNTIL in local time.",
     ["inputs", "schedules"], "every job name, start time and timezone, each form of schedule, recurrences with UNTIL in local time or UTC, in any case",
     "The tests check a few times of one name.",
     [UTILS, "dsari/croniter_hash.py"], [("next time", "dsari/utils.py get_next_schedule_time")], ["the returned time"], technique="abstract interpretation with intervals, residues and term dependence",
     note="The schedule libraries' own arithmetic is trusted. ")
prop("H03", "The times of a schedule do not depend on when they are computed",
     "Positions which a schedule leaves open are hashed from the job's name and are the same whenever the next time is computed, so that reloading or restarting the scheduler neither moves nor loses times of the schedule.",
     ["inputs", "histories"], "every job name and time of computation, each frequency and interval of a recurrence",
     "It shows only between two computations, on different days.",
     [UTILS, "dsari/croniter_hash.py"], [("beginning of a recurrence", "dsari/utils.py get_next_schedule_time")], ["the returned time"], technique="abstract interpretation with residues and term dependence")
prop("H04", "Schedules follow the local clock, also when it is changed",
     "Next times are computed in the schedule_timezone of the job, or else in the daemon's local timezone, each with its rules for daylight saving time, not with an offset which it had at some moment: a job for 8:00 runs at 8:00 before and after a change, without a reload. A next time which lies in the hour that is repeated when clocks are turned back is after the present time, so that no job is run again and again during that hour.",
     ["schedules", "histories", "configurations"], "every schedule and timezone, at startup, after a reload and after a run; every time of computation",
     "Clocks are changed twice a year, in some timezones; a test runs in an instant of one.",
     [UTILS, "dsari/__init__.py", DAEMON, CONF], [("local timezone", "dsari/__init__.py Job.__init__, dsari/utils.py get_local_timezone"), ("fold of the next time", "dsari/utils.py get_next_schedule_time"), ("time of computation", "dsari/daemon.py reset_jobs, process_scheduled_run")], ["the returned time", "Run.schedule_time"], technique="abstract interpretation with provenance of timezones and folds of times")
INFO, RENDER, EXPORTER = "dsari/info.py", "dsari/render.py", "dsari/prometheus_exporter.py"
ITESTS = "No test runs dsari-info. "
prop("I02", "dsari-info shows exactly the runs and output asked for, as recorded",
     "dsari-info run list prints, in every format, exactly the ended and running runs which match all of its --job and --run filters, each once and with its own recorded values (times, trigger, exit code; none of the latter and no end for a running one), in the order of their starts; pretty and tabular print a line for each. run output prints exactly the output kept for that run, uncompressed if it was compressed, nothing if none was kept, and ends in an error for an unknown run. run tail follows the output of exactly the running runs asked for which have any.",
     ["histories", "configurations", "inputs"], "every set of records, of jobs configured or not, every filter and format, each form of kept output",
     ITESTS + "Which of the recorded values reach which line of which format holds for all records or not at all.",
     [INFO, DB, UTILS], [("lists", "dsari/info.py Info.cmd_list_runs"), ("output", "dsari/info.py Info.cmd_get_run_output, cmd_tail_run_output, dsari/utils.py read_output")], ["standard output of dsari-info"], technique=SQLAI)
PTESTS = "No test runs the exporter. "
prop("M01", "The exported metrics are those of the recorded runs of each job",
     "For every configured job the exporter exports the number of its ended runs, of those which succeeded (exit code 0) and of those which failed; if it has any, also the sum, number and configured quantiles of their durations (end minus start) and latencies (start minus scheduled time), and exit code and times of the run which ended last; and for each run in progress its scheduled and start time. Runs of other jobs do not count, and jobs without runs have no values but the counts. --no-running leaves out the runs in progress.",
     ["histories", "configurations"], "every set of records with any times and exit codes, every list of quantiles",
     PTESTS + "That the right records reach the right metric holds for all records or not at all.",
     [EXPORTER, DB], [("ended runs", "dsari/prometheus_exporter.py Prometheus.get_job_metrics"), ("runs in progress", "dsari/prometheus_exporter.py Prometheus.get_running_metrics")], ["GET /metrics, --dump"], technique=SQLAI)
prop("M02", "Metrics are current; errors and reloads never break the exporter",
     "Metrics of ended runs are never older than --job-cache-time (and not looked up again earlier); those of runs in progress are those of the request. After SIGHUP, whenever it comes, the next request has the metrics of the new configuration; if that cannot be loaded, the exporter goes on with the current one. A request which failed leaves nothing behind for later ones. Metrics are served at --metrics-path only, with their length.",
     ["histories", "schedules", "fault_sequences"], "every point at which a signal comes or a lookup fails, every sequence of requests and changes of the records",
     PTESTS + "A signal in the middle of a request is not something a test samples.",
     [EXPORTER], [("cache", "dsari/prometheus_exporter.py Prometheus.get_metrics"), ("reload and requests", "dsari/prometheus_exporter.py PrometheusHandler")], ["GET /metrics"], technique=SQLAI)
prop("M03", "The metrics are valid in the Prometheus text format",
     "Whatever is recorded, the output is valid in the Prometheus text format: every line is a value, a help or a type; the values of a metric stand together after its one type, none twice; labels are valid without escapes (job names, run ids and numbers are), values are numbers, and a summary has quantiles, a sum and a count for the same labels.",
     ["histories", "configurations"], "every set of records and jobs",
     PTESTS + "One bad line makes Prometheus drop all metrics of the exporter.",
     [EXPORTER], [("text", "dsari/prometheus_exporter.py Prometheus.build_metrics_text")], ["GET /metrics, --dump"])
RTESTS = "No test renders reports. "
prop("R01", "Reports are complete: every ended run has its page and is listed",
     "dsari-render writes the page of every ended run of a configured job with render_reports which has none yet (of all with --regenerate), the page of every job with new ones or without a page, and then the index; existing pages are otherwise left alone. A job's page lists all its ended runs, latest first; the index the latest 25 runs, the latest 10 failed ones and every job with its last and last successful run. Runs stand there once, with their own times and exit code; links lead to existing pages, whatever the names of the jobs; nothing outside the html directory is written, nothing removed.",
     ["histories", "configurations"], "every set of records and of pages which are already there, every set of jobs, compressed or not",
     RTESTS + "Which pages are missing and in which order runs end is unbounded.",
     [RENDER, "dsari/templates/*.html", DB], [("choice of the pages", "dsari/render.py Renderer.render_run, render_jobs, render_index"), ("lists", "dsari/templates/index.html, job.html")], ["files below data_dir/html"], technique="abstract interpretation of dsari-render, its SQL and its templates (own template evaluator) over abstract records and file trees; judgement of the abstract pages")
prop("R02", "Whatever is recorded, reports show it as text, never as markup",
     "Every value on a report which comes from a run or a job (output, ids, names, trigger types and descriptions given by trigger files) is escaped and stands where escaping protects it: in text or inside a quoted attribute, not in a script, a style, a tag, a comment or at the start of a link (names and ids excepted).",
     ["inputs", "configurations"], "every output, every trigger type and description, every record",
     RTESTS + "An output is any text; one unescaped place suffices for a command's output to run scripts in the browser of whoever looks at the report.",
     [RENDER, "dsari/templates/*.html"], [("escaping", "dsari/render.py guess_autoescape, Renderer.__init__"), ("places", "dsari/templates/*.html")], ["files below data_dir/html"], technique="taint analysis through the program and its templates (abstract interpretation; escaping and context of every place a value is shown)")
prop("R03", "A run's page shows that run: its times, trigger and output",
     "The page of a run shows its own id, job, scheduled, start and end time, duration, exit code, trigger (for a trigger file its type, if given) and description, and its whole output, uncompressed where it was compressed, or none if it was not kept. With output limits the first and last characters of an output longer than the limits are shown, with a mark between. Templates in template_dir override the package's.",
     ["inputs", "configurations", "histories"], "every record, every trigger, every output and limit, every set of templates of the user's",
     RTESTS,
     [RENDER, "dsari/templates/run.html", UTILS], [("page of a run", "dsari/render.py Renderer.render_run, dsari/templates/run.html"), ("output", "dsari/utils.py read_output"), ("templates", "dsari/render.py Renderer.__init__")], ["files below data_dir/html"], technique="abstract interpretation of dsari-render and its templates; judgement of the abstract page against the record")
prop("R04", "A report page which is there is complete",
     "Pages appear under their names only when they are completely written, under a temporary name of the process's own until then, as an existing page is never written again without --regenerate: an interrupted dsari-render leaves no partial page which would stay.",
     ["crash_points", "histories"], "every moment at which dsari-render can be interrupted, every set of pages which are there",
     RTESTS + "Crash points between opening and closing a file are not something a test samples.",
     [RENDER], [("writing", "dsari/render.py write_html_file")], ["files below data_dir/html"], technique="typestate of files (opened, written, closed, renamed) along all paths of the abstract interpretation")
prop("R05", "What dsari's programs need is installed with them",
     "Every template dsari-render loads is part of the installed package, and every installed program starts a function which exists.",
     ["configurations"], "every template name the program can ask for",
     RTESTS + "Tests run from the source tree, where every file is there.",
     [RENDER, "setup.py"], [("template names", "dsari/render.py"), ("package data and programs", "setup.py")], ["installed files"], technique="comparison of the template names reached by the abstract interpretation with the package data in setup.py")
prop("I01", "dsari-info, dsari-render and the exporter change neither runs nor records",
     "Whatever dsari-info, dsari-render or the exporter is asked for, it leaves the records of runs as they are (a database which is not there yet gets its empty tables), starts, signals and ends no run, and writes, moves and removes no file, except that dsari-render writes the reports below html in data_dir and a missing directory of the SQLite database is made.",
     ["programs", "configurations", "histories"], "every command and option, every database backend, records and files which are there or not",
     ITESTS + "Beside a running scheduler, one statement too many of a program which only shows things clears the running runs or loses records.",
     [INFO, RENDER, EXPORTER, DB], [("commands", "dsari/info.py Info"), ("reports", "dsari/render.py Renderer.render"), ("metrics", "dsari/prometheus_exporter.py Prometheus"), ("opening the database", "dsari/database.py get_database, populate_schema")], ["statements sent to the database", "files written or removed", "os.kill, os.fork"],
     technique="effect analysis along all paths of the abstract interpretation of the three programs; statements evaluated on abstract tables")
prop("I03", "A run which ends while dsari-info looks runs up is neither missed nor doubled",
     "A run which ends at any moment while dsari-info run list looks runs up is listed exactly once, in every format and with every filter which matches it, and run output finds it, on every database backend, including those on which it is for a moment recorded both as running and as ended.",
     ["schedules"], "every moment between two lookups at which the scheduler records the end of a run",
     ITESTS + "Which of two queries sees the run is a race between two processes.",
     [INFO, DB], [("lists", "dsari/info.py Info.cmd_list_runs"), ("output", "dsari/info.py Info.cmd_get_run_output")], ["standard output of dsari-info"], technique="abstract interpretation with the other process's step inserted before every query; " + SQLAI)
prop("I04", "dsari-info job list shows the configured jobs; config check judges them",
     "dsari-info job list prints, in every format, exactly the configured jobs (with --job, those named), each once, sorted, with its schedule, its command as shell words quoted where needed, and the next time of its own schedule for its own name, and none for a job without a schedule; json and yaml give its options as they are in effect. config check ends with 0 if the configuration is valid and with another status if it is not.",
     ["configurations"], "every set of jobs, every filter and format",
     ITESTS + "Which option of which job reaches which column holds for all configurations or not at all.",
     [INFO], [("jobs", "dsari/info.py Info.dump_jobs, cmd_list_jobs"), ("check", "dsari/info.py Info.cmd_check_config")], ["standard output and exit status of dsari-info"])
prop("I05", "The programs understand their documented command lines and do what they ask",
     "dsari-daemon, dsari-info, dsari-render and dsari-prometheus-exporter accept the documented commands and options with their documented defaults, and refuse anything else without doing anything. They use exactly the configuration directory given by --config-dir or -c, or the default one. --job, --run and --format select what dsari-info prints; --regenerate or -r decides what dsari-render writes again; --dump, --listen-*, --metrics-path, --no-running, --quantiles and --job-cache-time (and WSGI_ARGS) take effect on the exporter; --fork leaves the daemon, which opens its database only after it forked, in a child while the parent ends.",
     ["inputs", "configurations"], "every documented command and option, in both of its spellings",
     "No test runs one of the programs. An option which is parsed and then not used looks fine alone.",
     [DAEMON, INFO, RENDER, EXPORTER], [("command lines", "parse_args and main of dsari/daemon.py, info.py, render.py, prometheus_exporter.py"), ("WSGI", "dsari/prometheus_exporter.py wsgi_application")], ["the four programs"],
     technique="abstract interpretation of each program's main function on abstract command lines, with the parser it builds evaluated as argparse would")
