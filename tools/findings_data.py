FINDINGS = {
 'fix: redraw cells uncovered after a wide character covered them': (['C01'], 'write a wide character over two drawn cells, refresh, overwrite its left half: the right cell stays blank on the display'),
 'fix: track the cursor correctly after drawing a wide character': (['C01'], 'after drawing a wide character the tracked cursor is one column short, so that a later cell can be drawn in the wrong place'),
 'fix: attach combining marks to the visible cell of a wide character': (['C02'], 'a combining mark after a wide character is attached to the hidden right half and lost'),
 'fix: do not panic on a wide character in a one-column screen': (['C02'], 'writing a wide character on a 1-column screen panics'),
 'fix: fill the line end with spaces before a wrapped wide character': (['C02'], 'a wide character wrapped at the line end leaves the old text in the last column'),
 'fix: blank a wide character cut off by a resize': (['C03'], 'shrinking a screen through the middle of a wide character leaves half of it in the buffer'),
 'fix: ScreenBuffer::write_styled clears attributes when text overflows': (['C02'], 'write_styled of text that does not fit leaves its attributes set'),
 'fix: do not overflow the line number when moving to the next line': (['C02'], 'a newline with the cursor on line usize::MAX overflows'),
 'fix: do not lose other attributes when italics or underline is removed': (['C04'], 'removing italics or underline where the terminal resets all attributes for it loses colors and other styles'),
 'fix: continue a partial write where it left off': (['C05', 'C06'], 'after a partial write(2) the output is sent again from its start, and the write loop may never end'),
 'fix: redraw a cell whose output failed': (['C06'], 'a refresh whose flush fails inside the text of a cell loses that cell on the display'),
 'fix: do not scroll when moving up one line from the first': (['C22'], 'on a terminal whose cursor_up is reverse index (tmux), move_up(1) on the first line scrolls the display'),
 'fix: do not send negative counts to the terminal for large moves': (['C22'], 'moves by 2^31 or more send a negative parameter (usize::MAX sends -1), which the terminal does not understand'),
 'fix: do not panic when an error in drop cannot be written to stderr': (['C05'], 'dropping a guard or terminal whose device is gone panics when stderr is that device as well'),
 'fix: do not block all input behind invalid UTF-8': (['C10', 'C12', 'C14'], 'an invalid UTF-8 byte in the input is never removed from the buffer: every following read_event and wait_event fails and no input is read any more'),
 'fix: do not underflow on a mouse report at column or line 0': (['C11'], 'a mouse report with column or line 0 panics (or wraps around to usize::MAX)'),
 'fix: accept any timeout, with microsecond precision': (['C14'], 'a timeout over about 292,000 years panics, and timeouts lose their microseconds (1us does not wait at all)'),
 'fix: do not lose signals which are received together or just before waiting': (['C13', 'C14'], 'Only the last signal was kept, so an earlier one of another kind was lost (SIGINT then SIGQUIT before a read: Interrupt is never reported); and a signal arriving between the check and select, or handled by another thread, did not end the wait (read_event(None) hangs although Interrupt arrived).'),
 'fix: do not lose a resize while a screen is opened': (['C13', 'C01'], 'A window change between reading the size and installing the handler in Screen::new is never reported: the screen keeps the old size (8x8 instead of 4x5).'),
 'fix: preserve device modes unknown to nix': (['C08', 'C07'], 'prepare clears device flags not known to nix (IUCLC, XCASE), and restore does not bring them back.'),
 'fix: restore modes and reported signals of an outer prepare': (['C07', 'C08'], 'Restoring a nested prepare turned off the keypad mode, mouse reporting or motion tracking of the outer one and left the inner set of reported signals; continuing after a suspension did not re-enable inherited modes. Also, motion tracking of an outer prepare stayed on (on terminals where the modes are independent) when the inner did not ask for it.'),
 'fix: revert a failed prepare and complete a failed restore': (['C09'], 'A prepare failing part way (e.g. sigaction or write fails) left the device raw and handlers installed; a restore stopped at the first failing step; Screen::drop then did not leave the alternate screen.'),
 'fix: restore the terminal even if a lock is poisoned': (['C09'], 'After a panic with a lock held, dropping the Screen or Terminal panicked instead of restoring (aborting the process when dropped by the same panic).'),
 'fix: decode a sequence that is split by the size of a read': (['C10', 'C11', 'C12'], 'More than 128 bytes of input at once (held keys, mouse motion, a paste): a key sequence or mouse report cut by the end of the read is decoded as Escape and characters although the rest is there (127 characters followed by ESC [ A).'),
 'fix: do not take the write lock to read a resize': (['C16', 'C15'], 'A thread holding the read and the write lock of a Terminal deadlocks with itself when read_event or read_raw reports a resize; with the write lock held by another thread, a reader waits for it.'),
 'fix: do not panic on a screen without lines or columns': (['C03'], 'Opening a Screen on a terminal whose size is not set (0x0, as of a new pty), resizing it to no columns, refreshing it or writing a combining mark on it panics (subtraction overflow, chunk size 0).'),
 'fix: do not write the delays of terminfo entries to the terminal': (['C01', 'C04', 'C22'], 'The padding of terminfo strings (vt100: cup=\\E[%i%p1%d;%p2%dH$<5>) is sent to the terminal as text: every refresh, move or attribute writes "$<5>" on the display.'),
}

# Not repaired: property, signature of the check, description
KNOWN = [
 ('C16', 'both-locks-terminal-continue', 'a thread holding the read and the write lock of a Terminal (taken in the documented order) deadlocks with itself when read_event or read_raw meets SIGCONT: modes are re-applied by prepare, which takes the write lock'),
 ('C16', 'both-locks-screen-continue', 'a thread holding the read and the write lock of a Screen (taken in the documented order) deadlocks with itself when read_event or read_raw meets SIGCONT: modes are re-applied by prepare, which takes the write lock'),
 ('C16', 'both-locks-screen-resize', 'a thread holding the read and the write lock of a Screen (taken in the documented order) deadlocks with itself when read_event or read_raw reports a resize: the buffer is resized under the data lock, which the write guard holds'),
]
