"""How much each check explores. race = how many of the 8 workers run the race-detector build."""


def P(cases, race_cases, race=4, budget=45, stub=None, scale=12):
    d = {"quick": {"cases": cases, "race_cases": race_cases, "race": race, "budget": budget},
         "thorough": {"cases": cases * scale, "race_cases": race_cases * scale, "race": race, "budget": budget * scale}}
    if stub:
        d["stub"] = stub
    return d


REC = "the estimator, splitter and scorer passed in are recording stubs"
PLAN = {
    "C01": P(20000, 4000),
    "C04": P(20000, 3000, stub=REC),
    "C05": P(6000, 800, stub=REC),
    "C06": P(20000, 3000),
    "C07": P(12000, 3000),
    "C16": P(20000, 0, race=0, stub=REC),
    "C02": P(6000, 6000, race=8),
    "C03": P(12000, 0, race=0),
    "C08": P(8000, 3000),
    "C09": P(8000, 3000),
    "C10": P(12000, 0, race=0),
    "C11": P(8000, 3000),
    "C17": P(12000, 0, race=0),
    "C20": P(12000, 0, race=0),
    "C12": P(20000, 2000, race=2),
    "C13": P(20000, 2000, race=2),
    "C14": P(6000, 1000, race=2),
    "C15": P(20000, 0, race=0, stub="the file system (open, read, stat, close) is simulated"),
    "C18": P(16000, 2000, race=2),
    "C19": P(20000, 3000, race=3),
    "C21": P(20000, 3000, race=3),
    "C22": P(16000, 2000, race=2, stub="in the linfit scenario the loss function passed in is a recording stub"),
    "C23": P(40000, 4000, race=2),
    "C24": P(10000, 1500, race=2),
    "C25": P(16000, 2000, race=2),
    "C26": P(30000, 0, race=0),
    "C27": P(60000, 6000, race=2),
    "C28": P(16000, 0, race=0),
    "C29": P(60000, 0, race=0, stub="the random state passed in is a recording stub"),
    "C31": P(100000, 10000, race=2),
    "C35": P(100000, 10000, race=2),
    "C36": P(16000, 0, race=0, stub="in part of the cases the random state passed in is a stub whose draws the simulator picks"),
    "C37": P(60000, 0, race=0),
    "C38": P(100000, 10000, race=2),
    "C39": P(16000, 3000, race=2),
    "C40": P(12000, 4000, race=2),
}

PURE = "A pure function of its arguments, computed in one goroutine with no clock, randomness or I/O: no schedule or fault can change it, so there is nothing for a simulator to decide."
NA = {k: PURE for k in ("C30", "C32", "C33", "C34")}
