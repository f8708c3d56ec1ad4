----- MODULE MCCalendar -----
EXTENDS Calendar
=============================
