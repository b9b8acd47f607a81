/* The utilities' own main functions (linked in under these names). */
int encipher_main(int, char **);
int decipher_main(int, char **);
int digest_main(int, char **);
int keyring_main(int, char **);
int cipher_info_main(int, char **);
