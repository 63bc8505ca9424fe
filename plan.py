# Per property: rapid checks per shard in each tier.
PLAN = {
    "C01": {"quick": 3000, "thorough": 120000},
    "C02": {"quick": 600, "thorough": 12000},
    "C11": {"quick": 300, "thorough": 12000},
    "C05": {"quick": 150, "thorough": 8000},
    "C07": {"quick": 25, "thorough": 1200},
    "C06": {"quick": 30, "thorough": 2500},
    "C04": {"quick": 100, "thorough": 5000},
    "C03": {"quick": 60, "thorough": 3000},
    "C12": {"quick": 500, "thorough": 20000},
    "C13": {"quick": 90, "thorough": 6000},
    "C14": {"quick": 150, "thorough": 30000},
    "C15": {"quick": 10, "thorough": 900, "asan": True},
    "C17": {"quick": 250, "thorough": 20000},
    "C20": {"quick": 40, "thorough": 6000},
    "C08": {"quick": 10, "thorough": 900, "asan": True},
    "C09": {"quick": 12, "thorough": 900, "asan": True},
    "C10": {"quick": 12, "thorough": 900, "asan": True},
    "C16": {"quick": 16, "thorough": 1200, "asan": True},
    "C18": {"quick": 8, "thorough": 600},
    "C19": {"quick": 12, "thorough": 900, "asan": True},
}
