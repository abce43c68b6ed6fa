/* host stand-in */
