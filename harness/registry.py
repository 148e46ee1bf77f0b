"""Which module holds the driver of which property."""
import importlib

MODULES = {
    "C01": "p_geometry",
    "C02": "p_board", "C03": "p_board",
    "C04": "p_text", "C05": "p_text", "C06": "p_text",
    "C07": "p_rules", "C08": "p_rules", "C09": "p_rules",
    "C10": "p_steps", "C11": "p_steps", "C12": "p_steps", "C30": "p_steps", "C15": "p_steps",
    "C13": "p_solve", "C14": "p_solve", "C16": "p_solve",
    "C17": "p_generate", "C18": "p_generate", "C19": "p_generate",
    "C20": "p_notation", "C21": "p_notation", "C22": "p_notation",
    "C23": "p_shell", "C24": "p_shell", "C25": "p_shell", "C28": "p_shell", "C29": "p_cursors",
    "C31": "p_shell",
    "C32": "p_history",
    "C26": "p_game", "C27": "p_game",
}


def load(pid):
    module = importlib.import_module(MODULES[pid])
    return getattr(module, pid)()
