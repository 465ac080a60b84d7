"""Assignment of items to slots of given capacity."""

from __future__ import annotations


def assign(options, capacity):
    """Slot of each item, or None for items that do not fit.

    ``options[i]`` are the slots item ``i`` may take, ``capacity`` the number
    of items each slot takes. As many items as possible are assigned.
    """
    slots = {s: [] for s in capacity}
    where = [None] * len(options)

    def place(item):
        """Breadth first search of a chain of moves that makes room."""
        came, queue = {}, [item]
        seen = set()
        for cur in queue:
            for slot in options[cur]:
                if slot in seen or slot not in capacity:
                    continue
                seen.add(slot)
                came[slot] = cur
                if len(slots[slot]) < capacity[slot]:
                    while True:
                        mover = came[slot]
                        old = where[mover]
                        if old is not None:
                            slots[old].remove(mover)
                        slots[slot].append(mover)
                        where[mover] = slot
                        if mover == item:
                            return True
                        slot = old
                queue.extend(slots[slot])
        return False

    for item in sorted(range(len(options)), key=lambda i: len(options[i])):
        place(item)
    return where
