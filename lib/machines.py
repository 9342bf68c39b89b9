"""Stand-in machines: what lscpu and /proc/cpuinfo say, and what follows from it."""
import os, random, shutil, subprocess
from common import write_exec, fake_grep, scratch

# names that hold digits and are none of the models the library knows by number
NAMES = ["Intel(R) Core(TM) i9-10900K CPU @ 3.70GHz", "AMD EPYC 7B13", "Intel(R) Xeon(R) Platinum 8481C CPU @ 2.70GHz",
         "AMD Ryzen 9 5950X 16-Core Processor", "unknown", "Cortex-A72", "12th Gen Intel(R) Core(TM) i7-12700H"]
# models the library knows by number, with the caches of their data sheets as it has them
KNOWN = {1: ("32K", "512K", "64M"), 3: ("32K", "32K", "1M"), 4: ("16K", "16K", "512K"), 17: ("32K", "512K", "4M"), 33: ("32K", "512K", "64M"), 49: ("32K", "512K", "128M"),
         69: ("32K", "256K", "4M"), 85: ("32K", "1M", "35.75M"), 142: ("32K", "256K", "8M"), 165: ("32K", "256K", "20M")}
# what a user in a country with a decimal comma has in the environment
LOCALES = [{"LANG": "de_DE.UTF-8"}, {"LC_ALL": "de_DE"}, {"LC_NUMERIC": "de_DE.UTF-8"}, {"LC_MESSAGES": "de_DE.UTF-8"}, {"LANG": "C", "LC_ALL": "de_DE.UTF-8"}]
GERMAN = [("CPU op-mode(s): ", "CPU Operationsmodus: "), ("Architecture:", "Architektur: "), ("Model name:", "Modellname:"), ("Model: ", "Modell:"), ("Thread(s) per core:", "Thread(s) pro Kern:"),
          ("Core(s) per socket:", "Kern(e) pro Sockel:"), ("Socket(s):", "Sockel:   "), ("NUMA node(s):", "NUMA-Knoten: "), ("Flags:", "Markierungen:")]
UNIT = {"K": 1 << 10, "M": 1 << 20, "G": 1 << 30}


def size(rng, choices):
    return rng.choice(choices)


def value(s, missing):
    return missing if s is None else min(int(float(s[:-1]) * UNIT[s[-1]]), 2**31 - 1)


def machine(i, seed):
    """The i-th machine: (description, expected L1, L2, L3, cores)."""
    r = random.Random(seed * 7919 + i)
    l1 = size(r, ["32K", "48K", "64K", "16K", "128K", "32.5K", "24K"])
    l2 = size(r, ["256K", "512K", "1M", "2M", "1.3M", "1.5M", "1024K", "0.5M", "4M"])
    l3 = size(r, ["8M", "20M", "36.6M", "512K", "16M", "1G", "2G", "4.5G", "1.5G", "260M", "0.5G", "96M"])
    model = None
    if i % 6 == 4:
        # a machine of a known model, which reports what the library knows of it
        model = sorted(KNOWN)[i // 6 % len(KNOWN)]
        l1, l2, l3 = KNOWN[model]
    elif i % 9 == 3: l3 = None
    if i % 23 == 7 and not model: l2 = None
    if i % 29 == 11 and not model: l1 = None
    socks, cps, thr = r.choice([1, 1, 2, 4]), r.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 24, 28, 64]), r.choice([1, 2, 2, 4])
    d = dict(model=model, l1=l1, l2=l2, l3=l3, socks=socks, cps=cps, thr=thr, name=r.choice(NAMES), style=i % 5, silent=(i % 31 == 30 and not model), failing=(i % 37 == 36 and not model),
             nosocket=(i % 19 == 5), nocpuinfo=(i % 41 == 9), loc=LOCALES[i // 2 % len(LOCALES)] if i % 3 == 1 else {}, i=i)
    cpus = socks * cps * thr
    L1, L2, L3 = value(l1, 32 << 10), value(l2, 32 << 10), value(l3, 512 << 10)
    cores = cps
    if d["nosocket"]:
        cores = cpus // thr
    if d["nocpuinfo"]:
        cores = 1
    if d["silent"] or d["failing"]:
        L1, L2, L3, cores = 32 << 10, 32 << 10, 512 << 10, cpus
        if d["nocpuinfo"]: cores = 1
    return d, (L1, L2, L3, max(cores, 1))


def make(d):
    """A directory with this machine's lscpu and grep."""
    path = os.path.join(scratch(), "m%d" % d["i"])
    os.makedirs(path, exist_ok=True)
    pad = ["", "  ", "      ", " ", "   "][d["style"]]

    def table(col, mult):
        # one-size: a single cache; all-size: all of them together
        rows = ["NAME " + col]
        def row(n, v, all_):
            if v is not None: rows.append("%s %s%s" % (n, pad, all_ if col == "ALL-SIZE" else v))
        row("L1d", d["l1"], "7.7M")
        row("L1i", "64K" if d["l1"] != "64K" else "32K", "9.9M") if d["l1"] is not None else None
        row("L2", d["l2"], "33.3M")
        # the last level is shared: what counts is all of it
        if d["l3"] is not None: rows.append("L3 %s%s" % (pad, d["l3"] if col == "ALL-SIZE" else "3.3M"))
        return "\n".join(rows)
    main = ["Architecture:          x86_64", "CPU op-mode(s):        32-bit, 64-bit", "CPU(s):                %d" % (d["socks"] * d["cps"] * d["thr"]),
            "Model name:            %s" % d["name"]]
    if d["model"]: main.insert(3, "Model:                 %d" % d["model"])
    cpu = ["Thread(s) per core:    %d" % d["thr"], "Core(s) per socket:    %d" % d["cps"]]
    if not d["nosocket"]: cpu.append("Socket(s):             %d" % d["socks"])
    if d["style"] % 2: cpu.reverse()
    main += cpu + ["NUMA node(s):          %d" % d["socks"], "Flags:                 fpu sse avx avx2 fma"]
    if d["failing"]:
        body = "#!/bin/bash\necho 'lscpu: failed to read the number of CPUs' >&2\nexit 1\n"
    elif d["silent"]:
        body = "#!/bin/bash\nexit 0\n"
    else:
        # like the real one, it speaks the language of its environment
        body = ("#!/bin/bash\nmsg=${LC_ALL:-${LC_MESSAGES:-$LANG}}; num=${LC_ALL:-${LC_NUMERIC:-$LANG}}\n"
                "case $num in ''|C|C.*|POSIX|en_*) comma() { cat; } ;; *) comma() { sed 's/\\([0-9]\\)\\.\\([0-9]*[KMG]\\)$/\\1,\\2/'; } ;; esac\n"
                "case $msg in ''|C|C.*|POSIX|en_*) lang() { cat; } ;; *) lang() { sed %s; } ;; esac\n"
                "case \"$*\" in\n*ONE-SIZE*) comma <<'X'\n%s\nX\n;;\n*ALL-SIZE*) comma <<'X'\n%s\nX\n;;\n*) lang <<'X'\n%s\nX\n;;\nesac\n") % (
            " ".join("-e 's/^%s/%s/'" % g for g in GERMAN), table("ONE-SIZE", 1), table("ALL-SIZE", d["cps"]), "\n".join(main))
    write_exec(os.path.join(path, "lscpu"), body)
    n = d["socks"] * d["cps"] * d["thr"]
    write_exec(os.path.join(path, "grep"), fake_grep(n) if not d["nocpuinfo"] else fake_grep("''"))
    return path


def comma_locale():
    """A directory for LOCPATH with a locale de_DE whose decimal point is a comma, if one can be made here."""
    path = os.path.join(scratch(), "locale")
    src = os.path.join(path, "src")
    if not os.path.exists(src):
        os.makedirs(path, exist_ok=True)
        cats = "".join('LC_%s\ncopy "POSIX"\nEND LC_%s\n' % (k, k) for k in ("CTYPE", "COLLATE", "TIME", "MONETARY", "MESSAGES", "PAPER", "NAME", "ADDRESS", "TELEPHONE", "MEASUREMENT"))
        ident = "".join('%s ""\n' % k for k in ("source", "address", "contact", "email", "tel", "fax", "language", "territory"))
        with open(src, "w") as f:
            f.write("comment_char %%\nescape_char /\nLC_IDENTIFICATION\ntitle \"x\"\n%srevision \"1\"\ndate \"2000-01-01\"\ncategory \"i18n:2012\";LC_IDENTIFICATION\nEND LC_IDENTIFICATION\n"
                    "%sLC_NUMERIC\ndecimal_point \",\"\nthousands_sep \"\"\ngrouping -1\nEND LC_NUMERIC\n" % (ident, cats))
        if shutil.which("localedef"):
            subprocess.run(["localedef", "-c", "-f", "ANSI_X3.4-1968", "-i", src, os.path.join(path, "de_DE")], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return path
