#!/usr/bin/env python3
"""Writes known_findings.txt: one line per defect of seatd found by the checks. All of them have been repaired."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """17b7060 C06 opening a device that is open again gave a second id and a second open file description
c16c12f C13,C08 removing a client restored the seat's current VT instead of the client's own
74c7cdf C10 the first session of a seat that is not VT-bound had number 0, which no switch can name
4e20d1b C07,C18 a path of 255 bytes did not fit the connection buffers together with its header, so the connection was dropped
b96e59b C08,C14,C17 end of stream with an incomplete message left in the buffer was not noticed, and poll() spun
a3a78b8 C17 dispatch with timeout 0 did not report a connection that had been lost
c4441e0 C11,C24 an event that did not fit the socket of a slow reader was never sent
2d4fc82 C12,C15 a signal arriving while its own callback ran was forgotten
df3ccfc C15 destroying the last source of a signal restored nothing (and one of several sources too much)
174472c C15 the signal pipe of a finished poller stayed open
c27e3e3 C25 running out of memory while accepting a client ended the daemon
8047849 C10 two sessions could be opened for one VT
a15c661 C11,C12 the VT of a session opened while another gave up the seat was not switched to process control, so the session was never disabled by a VT switch
fd0b2e4 C11,C12 when the kernel cancelled a VT release the seat stayed idle for ever
147c85e C16 events queued by libseat were delivered in reverse order
a98ef0a C18 errno of a failed request was overwritten by logging or set to 0
4adb7a5 C17 a failed libseat open closed the connection twice
ad32841 C16 events read together with the reply to opening the seat did not wake up the application
3d55919 C17 closing a seat whose connection is lost failed without errno
4f32bd5 C17 libseat_get_fd failed without errno
870804d C20 D-Bus booleans (int) were read into bool, overwriting the stack
0c6b18e C20,C21 the reply and the errors of calls made in logind signal handlers leaked
bee5cdf C20 dispatch went on reporting success, or spun, after the D-Bus connection was lost
0840f1d C17,C18 after waiting for a response failed, a later request took the late reply for its own
2bed308 C17 a negative device id from the server was passed on as success
64f716e C17 an error reply with errno 0 made a request fail without errno
df30fed C27 switching failed without errno
22e53e8 C20 signal handlers stayed installed on a shared bus after the seat was closed and used freed memory
11b029d C21 running out of memory while opening a logind seat crashed or left a half-opened seat
e92e8ee C21 failed logind requests left errno unset
670ca87 C23 seatd-launch took the options of the command as its own
0db7e2e C23 seatd-launch signalled the pid of a seatd that had been waited for already
771869c C25 a client was given a session for VT 0 or -1 if the current VT could not be determined
6d185f7 C25,C26 an assertion ended the daemon if the VT could not be looked up at an acquisition
2431b48 C20 a logind dispatch that had just told the application its state waited for more
fb1f317 C27 a no-op dispatch that had just enabled the seat waited for ever
f718d57 C23 with SIGCHLD inherited as ignored seatd-launch could not wait for seatd and its command
e89d2ec C04 a DRM device that was not master when its session was disabled was not made master again when it returned
230def7 C21 a device taken from logind whose descriptor could not be duplicated stayed taken, so that it could not be opened again
91b8945 C25 the errno of a descriptor that could not be duplicated was lost while the device was closed again""".splitlines()
if __name__ == "__main__":
    with open(V + "/known_findings.txt", "w") as o:
        o.write("# Defects of seatd found by the checks. Entries 'fixed:' suppress nothing. There is no open finding.\n")
        for l in F:
            c, ps, t = l.split(" ", 2)
            for p in ps.split(","):
                o.write("fixed: property=%s %s %s\n" % (p, c, t))
