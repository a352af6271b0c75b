# The checks and how far they go. thorough: how many times the quick tier's cases the thorough tier runs.
CHECKS = {
    "C01": {},
    "C02": {},
    "C03": {},
    "C04": {},
    "C05": {},
    "C07": {},
    "C08": {},
    "C09": {},
    "C10": {},
    "C11": {},
    "C18": {},
    "C14": {},
    "C20": {},
    "C29": {},
    "C12": {},
    "C13": {},
    "C15": {},
    "C16": {},
    "C17": {},
    "C19": {},
    "C21": {},
    "C22": {},
    "C30": {},
    "C23": {},
    "C24": {},
    "C25": {},
    "C26": {},
    "C27": {},
    "C28": {},
    "C31": {},
    "C32": {"race": True},
    "C33": {},
}
