"""Stand-in for the Ladon web service framework, which is not installed: the names the services and clients import, with
calls passed straight through, so that the services run in-process."""
